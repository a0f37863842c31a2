"""The trit word layer: integer and character codecs, cipher cell operations, comparison, copies (real bodies)."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops
from .group import Missing, panic_sites

W = C.W
U = 'trits::util::'
P3 = C.P3
COD = ('C10', 'C12')


def cases(st, f):
    """Run f(state) on a partition of st on which every formula f needs is decided; list of (state, result)."""
    out = []
    work = [st]
    while work:
        s = work.pop()
        try:
            t = s.copy()
            out.append((t, f(t)))
        except I.Split as e:
            work.extend(s.copy().assume(e.f, True) + s.copy().assume(e.f, False))
        if len(work) > 3000:
            raise I.Unsupported('too many cases')
    return out


def body(g, path):
    c = [b for b in g.P.by_path.get(path, []) if b.local and not b.d['generic']]
    for b in c:
        if 'u8' in b.key:
            return b
    if not c:
        if path in g.P.bodies:
            return g.P.bodies[path]
        raise Missing(path)
    return c[0]


def hooks(below):
    """Contracts of the integer codecs smaller than `below` trits and of the single trit accessors."""
    H = {}
    full = C.tw_hooks()
    for n in P3:
        if n < below:
            H[W + 'put%d' % n] = full[W + 'put%d' % n]
            H[W + 'get%d' % n] = full[W + 'get%d' % n]
    return H


def buf(it, st, name, d, k, hi=None):
    """A buffer of unknown size of trits 0..2 in which [d, d+k) exists; returns the pointer."""
    N = fresh('size', 0, 1 << 40)
    st.facts.add_ge(N - d - k)
    o = ('S', (name,))
    st.mem[o] = Region(N, ((N, 'src', (name,), Lin(0)),))
    return Ptr(o, (('e', Lin(0)),))


def written(st, reg, name):
    """Segments of the region that do not hold the original contents: (position, piece)."""
    out = []
    pos = Lin(0)
    for p in st.norm_content(reg.c):
        if not (p[1] == 'src' and p[2] == name and st.facts.ent_eq(p[3] - pos)):
            out.append((st.canon(pos), p))
        pos = pos + p[0]
    return out


def start(g, H=None, unroll=40):
    it = I.Interp(g.P, H or {}, unroll=unroll)
    st = I.State()
    return it, st


def in_range(st, x, lo, hi):
    return st.decide(f_and(f_ge(x - lo), f_ge(Lin(hi) - x))) is True


def codec(g, n):
    """put/get of n-trit balanced integers."""
    m = P3[n]
    b = body(g, W + 'put%d' % n)
    g.fn(b)
    it, st = start(g, hooks(n))
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, n)
    t = fresh('t', -m, m)
    outs = it.exec_body(st, b, [d, p, t])
    g.use(it)
    panic_sites(g, COD, it, 'put%d' % n)
    g.check(COD, outs, 'put%d: returns' % n, '', b.where())
    for s, _ in outs:
        reg = s.mem[p.obj]
        segs = written(s, reg, ('p',))

        def value(s):
            """(all extents inside [d, d+n), tiling, value, digits valid)"""
            val = Lin(0)
            pos = d
            ok = True
            for q, pc in segs:
                if not s.facts.ent_eq(q - pos):
                    return None, 'a gap or overlap in the written trits'
                o = s.canon(pos - d)
                if not o.is_const() or not pc[0].is_const():
                    raise I.Unsupported('digit position')
                k = pc[0].c
                if pc[1] == 'zero':
                    v = Lin(0)
                elif pc[1] == 'const':
                    dd = pc[2][pc[3].c:pc[3].c + k]
                    if any(not 0 <= x <= 2 for x in dd):
                        return None, 'stores a value outside 0..2'
                    v = Lin(C.unbal(dd))
                elif pc[1] == 'put' and s.canon(pc[3]) == Lin(0) and pc[2][0] == k:
                    v = pc[2][1]
                    if not in_range(s, v, -P3[k], P3[k]):
                        return None, 'passes %r outside the range of %d trits' % (v, k)
                elif pc[1] == 'val' and k == 1:
                    x = pc[2]
                    if not in_range(s, x, 0, 2):
                        return None, 'stores %r, not in 0..2' % (x,)
                    v = x - 3 if s.must(f_eq(x - 2)) else x
                else:
                    raise I.Unsupported('written piece %s' % pc[1])
                val = val + v * (3 ** o.c)
                pos = pos + k
            if not s.facts.ent_eq(pos - d - n):
                return None, 'does not write exactly %d trits' % n
            return val, ''
        for s2, (v, why) in cases(s, value):
            g.check(COD, v is not None, 'put%d: writes exactly [d, d+%d) with digits 0..2' % (n, n), why, b.where())
            if v is not None:
                g.check(('C10',), s2.facts.ent_eq(v - t), 'put%d: the digits written are those of the value' % n, 'digits denote %r for value %r' % (v, s2.canon(t)), b.where())
    # reading
    b = body(g, W + 'get%d' % n)
    g.fn(b)
    it, st = start(g, hooks(n))
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, n)
    alts = [st]
    if n == 1:
        alts = []
        x = it.trit_at(st, it.get_content(st, p.base(), d, Lin(1)))
        for k in range(3):
            alts += st.copy().assume(f_eq(x - k), True)
    for st in alts:
        for s, r in it.exec_body(st, b, [d, p]):
            def want(s):
                return digits(it, s, p, d, n, r)
            for s2, (got, exp) in cases(s, want):
                g.check(('C10',), s2.facts.ent_eq(got - exp), 'get%d: value of the %d trits at d' % (n, n), 'reads %r, the trits denote %r' % (s2.canon(got), exp), b.where())
            g.check(('C10',), not written(s, s.mem[p.obj], ('p',)), 'get%d: writes nothing' % n, '', b.where())
    g.use(it)
    panic_sites(g, ('C10',), it, 'get%d' % n)


def digits(it, s, p, d, n, r):
    """(returned value, value denoted by the trits), both over single digits."""
    def one(off):
        c = it.get_content(s, p.base(), off, Lin(1))
        x = s.canon(it.trit_at(s, c))
        if x.is_const():
            return Lin(x.c if x.c < 2 else -1)
        return C.get_value(it, s, 1, c)
    exp = Lin(0)
    for i in range(n):
        exp = exp + one(d + i) * (3 ** i)
    got = Lin(r.c)
    for i, k in s.canon(r).t:
        A = ATOMS[i]
        if A.kind == 'get' and A.args[0] > 1:
            q = Lin(0)
            c = A.args[1]
            for j in range(A.args[0]):
                cj = slice_content_exact(c, Lin(j), Lin(1), s.ge, s.dge)
                q = q + C.get_value(it, s, 1, cj) * (3 ** j)
            got = got + q * k
        elif A.kind == 'get':
            got = got + Lin.of(i) * k
        else:
            # reads the trits directly: decide each trit
            for j in range(n):
                x = it.trit_at(s, it.get_content(s, p.base(), d + j, Lin(1)))
                for v in (0, 1):
                    if s.must(f_eq(x - v)):
                        break
            return s.canon(r), s.canon(exp)
    return got, exp


def tryte(g):
    b = body(g, W + 'put_tryte')
    g.fn(b)
    it, st = start(g)
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, 3)
    t = fresh('t', 0, 26)
    outs = it.exec_body(st, b, [d, p, t])
    g.use(it)
    panic_sites(g, COD, it, 'put_tryte')
    for s, _ in outs:
        segs = written(s, s.mem[p.obj], ('p',))
        val = Lin(0)
        pos = d
        ok = True
        for q, pc in segs:
            if not s.facts.ent_eq(q - pos):
                ok = False
                break
            o = s.canon(pos - d)
            if pc[1] == 'zero':
                xs = [Lin(0)] * pc[0].c
            elif pc[1] == 'const':
                xs = [Lin(x) for x in pc[2][pc[3].c:pc[3].c + pc[0].c]]
            elif pc[1] == 'val':
                xs = [pc[2]]
            else:
                raise I.Unsupported('written piece')
            for x in xs:
                ok = g.check(COD, in_range(s, x, 0, 2), 'put_tryte: stores trits 0..2', 'stores %r' % x, b.where()) and ok
                val = val + x * 3 ** s.canon(pos - d).c
                pos = pos + 1
        g.check(COD, ok and s.facts.ent_eq(pos - d - 3), 'put_tryte: writes exactly three trits', '', b.where())
        g.check(('C10',), s.facts.ent_eq(val - t), 'put_tryte: the trits written denote the value', 'denote %r' % val, b.where())
    b = body(g, W + 'get_tryte')
    g.fn(b)
    it, st = start(g)
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, 3)
    for s, r in it.exec_body(st, b, [d, p]):
        exp = Lin(0)
        for i in range(3):
            exp = exp + it.trit_at(s, it.get_content(s, p.base(), d + i, Lin(1))) * 3 ** i
        g.check(('C10',), s.facts.ent_eq(r - exp), 'get_tryte: value of the three trits', 'reads %r' % r, b.where())
        g.check(('C10',), not written(s, s.mem[p.obj], ('p',)), 'get_tryte: writes nothing', '', b.where())
    g.use(it)
    panic_sites(g, ('C10',), it, 'get_tryte')


def one_trit(g):
    b = body(g, W + 'put_trit')
    g.fn(b)
    it, st = start(g)
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, 1)
    t = fresh('t', 0, 2)
    for s, _ in it.exec_body(st, b, [d, p, t]):
        segs = written(s, s.mem[p.obj], ('p',))
        ok = len(segs) == 1 and s.facts.ent_eq(segs[0][0] - d) and s.facts.ent_eq(segs[0][1][0] - 1)
        ok = ok and s.facts.ent_eq(it.trit_at(s, it.get_content(s, p.base(), d, Lin(1))) - t)
        g.check(COD, ok, 'put_trit: stores the trit at d and nothing else', repr(segs), b.where())
    g.use(it)
    panic_sites(g, COD, it, 'put_trit')
    b = body(g, W + 'get_trit')
    g.fn(b)
    it, st = start(g)
    d = fresh('d', 0, 1 << 40)
    p = buf(it, st, 'p', d, 1)
    for s, r in it.exec_body(st, b, [d, p]):
        g.check(('C10',), s.facts.ent_eq(r - it.trit_at(s, it.get_content(s, p.base(), d, Lin(1)))), 'get_trit: the trit at d', repr(r), b.where())
    g.use(it)
    panic_sites(g, ('C10',), it, 'get_trit')
    b = body(g, W + 'zero')
    it, st = start(g)
    for s, r in it.exec_body(st, b, []):
        g.check(('C12', 'C10'), r == Lin(0), 'zero() is the trit 0', repr(r), b.where())
    g.use(it)


def division(g):
    """Balanced remainder and quotient."""
    I32 = 1 << 31
    for name, m in (('mods1', 3), ('mods3', 27), ('mods9', 19683)):
        b = body(g, U + name)
        g.fn(b)
        it, st = start(g)
        h = (m - 1) // 2
        t = fresh('t', -I32 + h + 1, I32 - 1 - h - 1)
        for s, r in it.exec_body(st, b, [t]):
            bal_check(g, b, name, s, r, t, m, h)
        g.use(it)
        panic_sites(g, ('C10',), it, name)
    for name, m in (('mods1_usize', 3), ('mods3_usize', 27)):
        b = body(g, U + name)
        g.fn(b)
        it, st = start(g)
        t = fresh('t', 0, (1 << 64) - 1)
        for s, r in it.exec_body(st, b, [t]):
            bal_check(g, b, name, s, r, t, m, (m - 1) // 2)
        g.use(it)
        panic_sites(g, ('C10', 'C11'), it, name)


def bal_check(g, b, name, s, r, t, m, h):
    pids = ('C10', 'C11') if 'usize' in name else ('C10',)
    rem, q = r.f
    g.check(pids, in_range(s, rem, -h, h), '%s: remainder within %d..%d' % (name, -h, h), 'remainder %r' % s.canon(rem), b.where())
    g.check(pids, s.facts.ent_eq(t - rem - q * m), '%s: value = remainder + %d * quotient' % (name, m), 'remainder %r, quotient %r' % (s.canon(rem), s.canon(q)), b.where())


def conv(g):
    """Tryte, trint3 and character conversions."""
    def run1(name, lo, hi, f):
        b = body(g, U + name)
        g.fn(b)
        it, st = start(g)
        it.no_merge = True
        x = fresh('x', lo, hi)
        outs = it.exec_body(st, b, [x])
        g.use(it)
        panic_sites(g, ('C10',), it, name)
        g.check(('C10',), outs, '%s: returns' % name, '', b.where())
        for s, r in outs:
            for s2, (ok, why) in cases(s, lambda s: f(s, x, r)):
                g.check(('C10',), ok, '%s: exact' % name, why, b.where())

    def ent(s, r, e):
        return (isinstance(r, Lin) and s.facts.ent_eq(r - e)), 'returns %r instead of %r for %r' % (r if not isinstance(r, Lin) else s.canon(r), s.canon(e), 'the input')

    def tc(s, x, r):
        return ent(s, r, Lin(ord('9')) if s.must(f_eq(x)) else x + (ord('A') - 1))

    def tt(s, x, r):
        return ent(s, r, x - 27 if s.must(f_ge(x - 14)) else x)

    def ft(s, x, r):
        return ent(s, r, x + 27 if s.must(f_ge(-x - 1)) else x)

    def t3c(s, x, r):
        if s.must(f_eq(x)):
            return ent(s, r, Lin(ord('9')))
        return ent(s, r, x + (ord('A') + 26) if s.must(f_ge(-x - 1)) else x + (ord('A') - 1))

    def opt(e):
        def f(s, x, r):
            v = e(s, x)
            if not isinstance(r, Agg) or r.var is None:
                raise I.Unsupported('option %r' % (r,))
            if v is None:
                return r.var == 0, 'accepts a character outside 9A..Z'
            if r.var != 1:
                return False, 'rejects a valid character'
            return ent(s, r.f[0], v)
        return f

    def letter(s, x):
        return s.must(f_ge(x - ord('A'))) and s.must(f_ge(Lin(ord('Z')) - x))

    def fc(s, x):
        if letter(s, x):
            return x - (ord('A') - 1)
        return Lin(0) if s.must(f_eq(x - ord('9'))) else None

    def f3c(s, x):
        if letter(s, x):
            return x - (ord('A') - 1) if s.must(f_ge(Lin(ord('M')) - x)) else x - (ord('A') + 26)
        return Lin(0) if s.must(f_eq(x - ord('9'))) else None
    jobs = [('tryte_to_char', 0, 26, tc), ('tryte_from_char', 0, 0x10ffff, opt(fc)), ('tryte_to_trint3', 0, 26, tt),
            ('tryte_from_trint3', -13, 13, ft), ('trint3_to_char', -13, 13, t3c), ('trint3_from_char', 0, 0x10ffff, opt(f3c))]
    for j in jobs:
        g.guard(lambda j=j: run1(*j), j[0], ('C10',), ())


# ------------------------------------------------------------------ loops over trits
class Cell:
    """Specification of an elementwise operation: result for one position."""


def loop_run(g, name, args, label):
    """Analyse a body with one loop; returns (interp, reports, outs)."""
    b = body(g, name)
    g.fn(b)
    it, st = start(g)
    it.loop_hook = loops.summarise
    it.summ_rkind = 'src'
    reps = []
    it.summ_report = reps.append
    br = []
    it.on_branch = lambda it, st, v: br.append((it.stack[-1][0].npath, it.stack[-1][0].where(it.stack[-1][1]), v))
    ix = []
    it.on_index = lambda it, st, i, k, n, what: ix.append((it.stack[-1][0].where(it.stack[-1][1]), i))
    it.logs = [br, ix]
    a = args(it, st)
    outs = it.exec_body(st, b, a)
    g.use(it)
    return b, it, reps, outs, br, ix


def lname(reg):
    """Name of the generalised contents of a region at a loop header."""
    return reg.c[0][2] if len(reg.c) == 1 and reg.c[0][1] == 'src' else None


def elementwise(g, name, objs, mk, spec, pids):
    """One pass over n positions: every position of the written operands gets the specified trit, nothing else changes.
    objs: name -> (offset var name, written?)"""
    n = fresh('n', 0, 1 << 40)
    ds = {o: fresh('d' + o, 0, 1 << 40) for o in objs}
    ptr = {}

    def args(it, st):
        for o in objs:
            ptr[o] = buf(it, st, o, ds[o], n)
        return mk(n, ds, ptr)
    b, it, reps, outs, br, ix = loop_run(g, name, args, name)
    lab = name.split('::')[-1]
    panic_sites(g, pids, it, lab)
    if len(reps) != 1:
        if not reps:
            # no iteration reaches the loop header again
            raise I.Unsupported('no loop in %s' % lab)
        raise I.Unsupported('%d loops in %s' % (len(reps), lab))
    R = reps[0]
    wobj = [o for o in objs if objs[o]]
    K = None
    for s in R.backs:
        spans = {}
        for o in objs:
            reg = s.mem[ptr[o].obj]
            head = R.head.mem[ptr[o].obj]
            nm = lname(head) or (o,)
            segs = written(s, reg, nm)
            if not objs[o]:
                g.check(pids, not segs, '%s: %s is only read' % (lab, o), repr(segs), b.where())
                continue
            if not segs:
                g.check(pids, False, '%s: every iteration writes %s' % (lab, o), '', b.where())
                return
            pos = segs[0][0]
            st0 = pos
            for q, pc in segs:
                if not s.facts.ent_eq(q - pos) or not s.canon(pc[0]).is_const():
                    raise I.Unsupported('%s writes scattered positions' % lab)
                pos = pos + pc[0]
            spans[o] = (st0, s.canon(pos - st0).c)
        cnt = {c for _, c in spans.values()}
        if len(cnt) != 1:
            g.check(pids, False, '%s: operands advance together' % lab, repr(spans), b.where())
            return
        w = cnt.pop()
        # progress counter
        k = spans[wobj[0]][0] - ds[wobj[0]]
        if K is None:
            K = k = loops.position(R, s, k)
        ok = s.facts.ent_eq(k - K)
        for o in wobj:
            ok = ok and s.facts.ent_eq(spans[o][0] - ds[o] - K)
        g.check(pids, ok, '%s: iteration k works on position k of every operand' % lab, 'positions %r' % (spans,), b.where())
        if not any(written(R.entry, R.entry.mem[ptr[o].obj], (o,)) for o in objs):
            g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts at position 0' % lab, 'starts at %r' % R.at_entry(K), b.where())
        else:
            before(g, it, R, K, lab, objs, wobj, ptr, ds, spec, pids, b)
        nk = R.at_back(s, K)
        g.check(pids, s.facts.ent_eq(nk - K - w), '%s: consecutive iterations work on consecutive positions' % lab, 'next %r after %r' % (nk, K), b.where())
        # values: at position K+j, reading header contents at K+j only
        for j in range(w):
            cells = {}
            for o in objs:
                head = R.head.mem[ptr[o].obj]
                cells[o] = it.trit_at(s, it.read_region(s, head, ds[o] + K + j, Lin(1)))
            vals = {o: it.trit_at(s, it.read_region(s, s.mem[ptr[o].obj], ds[o] + K + j, Lin(1))) for o in wobj}
            s0 = [s]
            for o in objs:
                s0 = [y for x in s0 for v in range(3) for y in x.copy().assume(f_eq(cells[o] - v), True)]
            for x in s0:
                cv = {o: x.canon(cells[o]).c for o in objs}
                for o in wobj:
                    e = spec(cv)[o]
                    g.check(pids, x.facts.ent_eq(x.canon(vals[o]) - e), '%s: new %s at a position' % (lab, o),
                            'for %r the result is %r, expected %d' % (cv, x.canon(vals[o]), e), b.where())
    if K is None:
        raise I.Unsupported('%s: no iteration' % lab)
    for s, _ in R.exits:
        g.check(pids, s.facts.ent_eq(K - n), '%s: stops after n positions' % lab, 'stops at %r' % s.canon(K), b.where())
        for o in objs:
            nm = lname(R.head.mem[ptr[o].obj]) or (o,)
            g.check(pids, not written(s, s.mem[ptr[o].obj], nm), '%s: nothing is written after the last position (%s)' % (lab, o), '', b.where())
    for s, _ in outs:
        for o in objs:
            nm = lname(R.head.mem[ptr[o].obj]) or (o,)
            # no positions: the loop may be skipped
            skip = s.facts.ent_eq(n) and not written(s, s.mem[ptr[o].obj], (o,))
            g.check(pids, skip or not written(s, s.mem[ptr[o].obj], nm), '%s: nothing else is written (%s)' % (lab, o), '', b.where())


def before(g, it, R, K, lab, objs, wobj, ptr, ds, spec, pids, b):
    """Positions dealt with before the loop starts: exactly those before its first position, as specified."""
    E = R.entry
    p0 = E.canon(R.at_entry(K))
    if not p0.is_const() or not 0 <= p0.c <= 4:
        raise I.Unsupported('%s: the loop starts at %r' % (lab, p0))
    for o in objs:
        segs = written(E, E.mem[ptr[o].obj], (o,))
        if o not in wobj:
            g.check(pids, not segs, '%s: %s is only read' % (lab, o), repr(segs), b.where())
            continue
        ok = all(E.facts.ent_ge(q - ds[o]) and E.facts.ent_ge(ds[o] + p0 - q - pc[0]) for q, pc in segs)
        g.check(pids, ok, '%s: before the loop only the positions before its first are written' % lab, repr(segs)[:200], b.where())
    for j in range(p0.c):
        cells = {o: it.trit_at(E, ((Lin(1), 'src', (o,), ds[o] + j),)) for o in objs}
        vals = {o: it.trit_at(E, it.read_region(E, E.mem[ptr[o].obj], ds[o] + j, Lin(1))) for o in wobj}
        s0 = [E]
        for o in objs:
            s0 = [y for x in s0 for v in range(3) for y in x.copy().assume(f_eq(cells[o] - v), True)]
        for x in s0:
            cv = {o: x.canon(cells[o]).c for o in objs}
            for o in wobj:
                e = spec(cv)[o]
                g.check(pids, x.facts.ent_eq(x.canon(vals[o]) - e), '%s: new %s at a position' % (lab, o),
                        'position %d: for %r the result is %r, expected %d' % (j, cv, x.canon(vals[o]), e), b.where())


def has_trit(v, vars=()):
    """Does a value depend on trit contents (or on the given atoms)?"""
    if isinstance(v, Lin):
        return any(atom_has(i, vars) for i, _ in v.t)
    if isinstance(v, tuple):
        return any(has_trit(x, vars) for x in v)
    if isinstance(v, (Agg, Ptr, Opq, Sym, Region)):
        return has_trit(v._k(), vars)
    return False


def atom_has(i, vars):
    if i in vars:
        return True
    A = ATOMS[i]
    if A.kind in ('trit', 'byte', 'get', 'gett'):
        return True
    if A.kind in ('v', 's', 'kap'):
        return False
    return has_trit(A.args, vars)


def tainted(reps):
    """Loop variables whose value depends on trit contents."""
    t = set()
    grow = True
    while grow:
        grow = False
        for R in reps:
            for i in R.vars:
                if i in t:
                    continue
                if any(has_trit(R.at_back(s, Lin.of(i)), t) for s in R.backs):
                    t.add(i)
                    grow = True
    return t


def tainted_bools(reps, t):
    out = set()
    for R in reps:
        for key, (f, e0) in R.g.bools.items():
            for s in R.backs:
                v = loops.eval_key(s, key[0], key[1:])
                if has_trit(v, t) or any(x in out for x in walk(v)):
                    out.add(f)
    return out


def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            for y in walk(x):
                yield y


def unsafe_eq(g):
    n = fresh('n', 0, 1 << 40)
    dx, dy = fresh('dx', 0, 1 << 40), fresh('dy', 0, 1 << 40)
    P = {}

    def args(it, st):
        P['x'] = buf(it, st, 'x', dx, n)
        P['y'] = buf(it, st, 'y', dy, n)
        return [n, dx, P['x'], dy, P['y']]
    b, it, reps, outs, br, ix = loop_run(g, W + 'unsafe_eq', args, 'unsafe_eq')
    panic_sites(g, ('C23', 'C25'), it, 'unsafe_eq')
    t = tainted(reps)
    tb = tainted_bools(reps, t)
    for fn, w, v in br:
        g.check(('C23',), not has_trit(v, t) and not any(x in tb for x in walk(v)), 'unsafe_eq: no branch in %s depends on the compared trits' % fn, 'branches on %r' % (v,), w)
    for w, i in ix:
        g.check(('C23',), not has_trit(i, t), 'unsafe_eq: no memory index depends on the compared trits', 'index %r' % i, w)
    if len(reps) != 1:
        raise I.Unsupported('%d loops in unsafe_eq' % len(reps))
    R = reps[0]
    lab = 'unsafe_eq'
    pids = ('C25', 'C04')
    # accumulator: the only loop variables depending on trits
    accs = [Lin.of(i) for i in R.vars if i in t]
    accb = [f for f in tb]
    if len(accs) + len(accb) != 1:
        raise I.Unsupported('comparison accumulator')
    if accs:
        acc = accs[0]
        clear = lambda s, l: f_eq(l)
        e0 = f_eq(R.at_entry(acc))
        head = f_eq(acc)
        back = lambda s: f_eq(R.at_back(s, acc))
    else:
        head = accb[0]
        key, (f, e0) = next((k, v) for k, v in R.g.bools.items() if v[0] == head)
        back = lambda s: loops.eval_key(s, key[0], key[1:])
    # positions compared: the trits mentioned by the accumulator of the next iteration
    for s in R.backs:
        f = back(s)
        found = trits_of(f)
        xs = [a for a in found if a[1] == ('x',)]
        ys = [a for a in found if a[1] == ('y',)]
        if len(xs) != 1 or len(ys) != 1:
            raise I.Unsupported('compared positions')
        kx, ky = xs[0][2] - dx, ys[0][2] - dy
        g.check(pids, s.facts.ent_eq(kx - ky), 'unsafe_eq: compares the same position of both', '%r and %r' % (kx, ky), b.where())
        K = loops.position(R, s, kx)
        E = R.entry
        p0 = E.canon(R.at_entry(K))
        if not has_trit(e0):
            g.check(pids, decide_c(it, E, e0) is True, 'unsafe_eq: starts with no difference', repr(e0), b.where())
            g.check(pids, E.facts.ent_eq(p0), 'unsafe_eq: starts at position 0', repr(p0), b.where())
        elif not p0.is_const() or not 1 <= p0.c <= 2:
            raise I.Unsupported('unsafe_eq: the loop starts at %r' % p0)
        else:
            # positions compared before the loop
            zs = [(E, True)]
            for j in range(p0.c):
                a, c = (it.trit_at(E, ((Lin(1), 'src', (o,), d + j),)) for o, d in (('x', dx), ('y', dy)))
                zs = [(y, h and vx == vy) for z, h in zs for vx in range(3) for vy in range(3)
                      for x in z.copy().assume(f_eq(a - vx), True) for y in x.assume(f_eq(c - vy), True)]
            for z, h in zs:
                g.check(pids, decide_c(it, z, e0) is h, 'unsafe_eq: the positions before the loop count as equal exactly when the trits are', repr(e0)[:200], b.where())
        g.check(pids, s.facts.ent_eq(R.at_back(s, K) - K - 1), 'unsafe_eq: visits consecutive positions', repr(R.at_back(s, K)), b.where())
        X = it.trit_at(s, it.read_region(s, s.mem[P['x'].obj], dx + K, Lin(1)))
        Y = it.trit_at(s, it.read_region(s, s.mem[P['y'].obj], dy + K, Lin(1)))
        for vx in range(3):
            for vy in range(3):
                for z in s.copy().assume(f_eq(X - vx), True):
                    for z in z.assume(f_eq(Y - vy), True):
                        for h in (True, False):
                            for w in z.copy().assume(head, h):
                                r = decide_c(it, w, back(w))
                                g.check(pids, r is (h and vx == vy), 'unsafe_eq: a position counts as equal exactly when the trits are',
                                        'trits %d, %d, equal so far: %s, result %s' % (vx, vy, h, r), b.where())
        for e, _ in R.exits:
            g.check(pids, e.facts.ent_eq(K - n), 'unsafe_eq: stops after n positions', repr(e.canon(K)), b.where())
    for s, r in outs:
        if s.facts.ent_eq(n) and decide_c(it, s, r) is True:
            # no positions: the loop may be skipped
            continue
        for h in (True, False):
            for w in s.copy().assume(head, h):
                g.check(pids, decide_c(it, w, r) is h, 'unsafe_eq: returns whether no difference was found', 'returns %r' % (r,), b.where())


def decide_c(it, st, f):
    """Truth value of f after evaluating compound integer atoms under the known equalities."""
    if isinstance(f, tuple) and f and f[0] in ('eq', 'ge'):
        l = st.canon(f[1])
        l2 = eval_bits(st, l)
        return st.decide(f_eq(l2) if f[0] == 'eq' else f_ge(l2))
    if isinstance(f, tuple) and f and f[0] == 'not':
        r = decide_c(it, st, f[1])
        return None if r is None else not r
    if isinstance(f, tuple) and f and f[0] in ('and', 'or'):
        a, b = decide_c(it, st, f[1]), decide_c(it, st, f[2])
        if f[0] == 'and':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    return st.decide(f)


def eval_bits(st, l):
    r = Lin(l.c)
    for i, k in l.t:
        A = ATOMS[i]
        if A.kind in ('BitOr', 'BitXor', 'BitAnd'):
            a, b = (eval_bits(st, st.canon(x)) for x in A.args)
            if a.is_const() and b.is_const():
                f = {'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__}[A.kind]
                r = r + f(a.c, b.c) * k
                continue
            if A.kind == 'BitOr' and a == Lin(0):
                r = r + b * k
                continue
            if A.kind == 'BitOr' and b == Lin(0):
                r = r + a * k
                continue
            if A.kind == 'BitOr':
                # nonzero as soon as one side is
                lo = max((st.facts.bounds(x)[0] or 0) for x in (a, b))
                r = r + fresh('or', max(lo, 0), A.hi) * k
                continue
        r = r + Lin.of(i) * k
    return r


def trits_of(v, out=None):
    """Trit atoms (kind, data, off) occurring in a formula."""
    out = set() if out is None else out
    if isinstance(v, Lin):
        for i, _ in v.t:
            A = ATOMS[i]
            if A.kind == 'trit':
                out.add(A.args)
            elif A.kind not in ('v', 's'):
                trits_of(A.args, out)
    elif isinstance(v, tuple):
        for x in v:
            trits_of(x, out)
    return out


def bulk(g):
    """unsafe_copy and unsafe_set_zero."""
    b = body(g, W + 'unsafe_copy')
    g.fn(b)
    it, st = start(g)
    n, dx, dy = fresh('n', 0, 1 << 40), fresh('dx', 0, 1 << 40), fresh('dy', 0, 1 << 40)
    x, y = buf(it, st, 'x', dx, n), buf(it, st, 'y', dy, n)
    pids = ('C12', 'C07', 'C13')
    for s, _ in it.exec_body(st, b, [n, dx, x, dy, y]):
        got = it.get_content(s, y.base(), dy, n)
        g.check(pids, s.same_content(got, it.get_content(s, x.base(), dx, n)), 'unsafe_copy: the n trits at dy are those at dx', repr(got), b.where())
        rest(g, pids, 'unsafe_copy', b, s, s.mem[y.obj], 'y', dy, n)
        g.check(pids, not written(s, s.mem[x.obj], ('x',)), 'unsafe_copy: source unchanged', '', b.where())
    g.use(it)
    panic_sites(g, pids, it, 'unsafe_copy')
    b = body(g, W + 'unsafe_set_zero')
    g.fn(b)
    it, st = start(g)
    n, d = fresh('n', 0, 1 << 40), fresh('d', 0, 1 << 40)
    y = buf(it, st, 'y', d, n)
    for s, _ in it.exec_body(st, b, [n, d, y]):
        got = s.norm_content(it.get_content(s, y.base(), d, n))
        g.check(pids, s.same_content(got, zero(n)), 'unsafe_set_zero: the n trits at d are 0', repr(got), b.where())
        rest(g, pids, 'unsafe_set_zero', b, s, s.mem[y.obj], 'y', d, n)
    g.use(it)
    panic_sites(g, pids, it, 'unsafe_set_zero')


def rest(g, pids, lab, b, s, reg, nm, d, n):
    ok = True
    for q, pc in written(s, reg, (nm,)):
        ok = ok and s.facts.ent_ge(q - d) and s.facts.ent_ge(d + n - q - pc[0])
    g.check(pids, ok, '%s: nothing else is written' % lab, repr(reg), b.where())


def consts(g):
    """The exported ranges of the signed integer types."""
    vals = {c['path']: c['v'] for c in g.P.raw['consts']}
    for n in (1, 3, 6, 9, 18):
        for nm, v in (('MIN', -P3[n]), ('MAX', P3[n])):
            p = 'trits::defs::%s_TRINT%d' % (nm, n)
            x = vals.get(p)
            if not isinstance(x, dict) or 'int' not in x:
                g.undecided(('C10',), 'constant %s' % p, 'not found')
                continue
            g.check(('C10',), x['int'] == v, '%s is %d' % (p, v), 'is %r' % x['int'], 'src/trits/defs.rs')


def run(g):
    if g.wants('C10', 'C12'):
        for n in (1, 3, 6, 9, 18):
            g.guard(lambda n=n: codec(g, n), 'codec of %d trits' % n, COD, ())
        g.guard(tryte, 'tryte codec', COD, (g,))
        g.guard(one_trit, 'trit access', COD, (g,))
    if g.wants('C10'):
        consts(g)
    if g.wants('C10', 'C11'):
        g.guard(division, 'balanced division', ('C10', 'C11'), (g,))
    if g.wants('C10'):
        g.guard(conv, 'conversions', ('C10',), (g,))
    if g.wants('C12', 'C07', 'C13'):
        g.guard(bulk, 'bulk operations', ('C12', 'C07', 'C13'), (g,))
    if g.wants('C08', 'C12'):
        pids = ('C08', 'C12')
        jobs = [('unsafe_swap_add', {'x': True, 's': True}, lambda n, d, p: [n, d['x'], p['x'], d['s'], p['s']],
                 lambda c: {'x': (c['x'] + c['s']) % 3, 's': c['x']}),
                ('unsafe_swap_sub', {'y': True, 's': True}, lambda n, d, p: [n, d['y'], p['y'], d['s'], p['s']],
                 lambda c: {'y': (c['y'] - c['s']) % 3, 's': (c['y'] - c['s']) % 3}),
                ('unsafe_copy_add', {'x': False, 's': True, 'y': True}, lambda n, d, p: [n, d['x'], p['x'], d['s'], p['s'], d['y'], p['y']],
                 lambda c: {'y': (c['x'] + c['s']) % 3, 's': c['x']}),
                ('unsafe_copy_sub', {'y': False, 's': True, 'x': True}, lambda n, d, p: [n, d['y'], p['y'], d['s'], p['s'], d['x'], p['x']],
                 lambda c: {'x': (c['y'] - c['s']) % 3, 's': (c['y'] - c['s']) % 3})]
        for j in jobs:
            g.guard(lambda j=j: elementwise(g, W + j[0], j[1], j[2], j[3], pids), j[0], pids, ())
    if g.wants('C23', 'C25', 'C04'):
        g.guard(unsafe_eq, 'unsafe_eq', ('C23', 'C25', 'C04'), (g,))
