"""Loop summaries: the state at a loop header is generalised over everything an iteration changes; linear invariants
are guessed from a template and kept only when they hold on entry and are preserved by every path of the body."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I


STEP = 1 << 8


class Report:
    """What a summarised loop does: entry state, generalised header state, states at the back edges and at the exits."""

    def __init__(self, b, bb, entry, head, backs, exits, g, inv):
        self.b = b
        self.bb = bb
        self.entry = entry
        self.head = head
        self.backs = backs
        self.exits = exits
        self.g = g
        self.inv = inv
        self.vars = {x.t[0][0]: (key, e0) for key, (x, e0) in g.lins.items()}

    def at_entry(self, l):
        return subst(l, {i: e0 for i, (key, e0) in self.vars.items()})

    def at_back(self, s, l):
        return subst(l, {i: eval_key(s, key[0], key[1:]) for i, (key, e0) in self.vars.items()})


class Gen:
    def __init__(self, st, name):
        self.st = st
        self.name = name
        self.rkind = 'havoc'
        self.bools = {}     # key -> (formula, entry value)
        self.counters = set()
        self.unbounded = set()
        self.lins = {}      # key -> (fresh, entry value)

    def gen(self, key, a, bs, st_b):
        """Generalise value a against the values bs (list of (state, value))."""
        if all(self.eq(a, b) for b in bs):
            return a
        if a is None or a == UNINIT or any(b is None or b == UNINIT for b in bs):
            return UNINIT
        if isinstance(a, Lin) and all(isinstance(b, Lin) for b in bs):
            if key not in self.lins:
                lo, hi = self.bounds(key, a, bs)
                self.lins[key] = (fresh('lp', lo, hi), a)
            return self.lins[key][0]
        if isinstance(a, Sp) and all(isinstance(b, Sp) for b in bs):
            return Sp(('havoc', self.name + (key,)))
        if isinstance(a, (bool, tuple)) and all(isinstance(b, (bool, tuple)) for b in bs):
            f = ('op', ('lpb', self.name + (key,)))
            self.bools[key] = (f, a)
            return f
        if isinstance(a, Agg) and all(isinstance(b, Agg) and b.tag == a.tag and b.var == a.var and len(b.f) == len(a.f) for b in bs):
            return Agg(a.tag, a.var, [self.gen(key + (i,), a.f[i], [b.f[i] for b in bs], st_b) for i in range(len(a.f))])
        if isinstance(a, Ptr) and all(isinstance(b, Ptr) and b.base() == a.base() for b in bs):
            base = a.base()
            m = a.meta
            if any(b.meta != m for b in bs):
                m = self.gen(key + ('m',), m, [b.meta for b in bs], st_b)
            off = self.gen(key + ('o',), a.off(), [b.off() for b in bs], st_b)
            return Ptr(base[0], base[1] + (('e', off),), m)
        if isinstance(a, VecV) and all(isinstance(b, VecV) for b in bs):
            return ('vec', key)
        if isinstance(a, Region) and all(isinstance(b, Region) for b in bs):
            n = self.gen(key + ('n',), a.n, [b.n for b in bs], st_b)
            return Region(n, ((n, self.rkind, self.name + (key,), Lin(0)),))
        if isinstance(a, Seq) and all(isinstance(b, Seq) for b in bs):
            n = self.gen(key + ('n',), a.n, [b.n for b in bs], st_b)
            if n == a.n and a.items is not None and all(b.items is not None and len(b.items) == len(a.items) for b in bs):
                return Seq(n, tuple(self.gen(key + ('i', i), a.items[i], [b.items[i] for b in bs], st_b) for i in range(len(a.items))))
            return Seq(n, None, ('opq', ('lpseq',) + self.name + (key,)))
        if isinstance(a, Smash) and all(isinstance(b, Smash) for b in bs):
            lo = min([a.lo] + [b.lo for b in bs])
            hi = max([a.hi] + [b.hi for b in bs])
            return Smash(a.n, lo, hi)
        return Opq(('lpmix', self.name + (key,)))

    def bounds(self, key, a, bs):
        """A counter that grows by at most STEP per iteration stays below STEP * 2^40 (no loop here runs longer)."""
        if key in self.unbounded or not a.is_const() or not all((b - a).is_const() and 0 <= (b - a).c <= STEP for b in bs):
            return None, None
        self.counters.add(key)
        return None, a.c + STEP * 2**40

    def eq(self, a, b):
        try:
            return a == b
        except Exception:
            return False


def position(R, s, k):
    """k as a function of one loop variable that starts at 0, when it is one in this state; k itself otherwise."""
    for i, (_, e0) in R.vars.items():
        for c in (Lin.of(i) - e0, e0 - Lin.of(i)):
            if s.facts.ent_eq(k - c):
                return c
    return k


def lins_of(v, out, depth=0):
    if depth > 6:
        return
    if isinstance(v, Lin):
        out.add(v)
    elif isinstance(v, Agg):
        for x in v.f:
            lins_of(x, out, depth + 1)
    elif isinstance(v, Ptr):
        if v.path and v.path[-1][0] == 'e':
            out.add(v.off())
        if isinstance(v.meta, Lin):
            out.add(v.meta)
    elif isinstance(v, (Region, Seq)):
        out.add(v.n)


def subst(l, m):
    """Substitute atoms by Lins in an affine expression."""
    r = Lin(l.c)
    for i, k in l.t:
        r = r + (m[i] * k if i in m else Lin.of(i, k))
    return r


def eval_key(st, obj, key):
    """Value at a generalisation key in a state."""
    v = st.mem.get(obj)
    for k in key:
        if isinstance(v, Agg):
            v = v.f[k]
        elif isinstance(v, Ptr):
            v = v.meta if k == 'm' else v.off()
        elif isinstance(v, (Region, Seq)) and k == 'n':
            v = v.n
        elif isinstance(v, Seq) and k == 'i':
            continue
        elif isinstance(v, Seq):
            v = v.items[k]
        else:
            return None
    return v


def settle(s):
    """Truth values that are decided in this state replace the formulas they came from."""
    for o, v in list(s.mem.items()):
        if isinstance(v, tuple) and v and v[0] in ('op', 'not', 'and', 'or', 'ge', 'eq'):
            d = s.decide(v)
            if d is not None:
                s.mem[o] = d


def summarise(it, b, fr, st, bb, c, vis):
    act = getattr(it, 'summ_active', None)
    if act is None:
        act = it.summ_active = set()
    k = (b.key, fr, bb)
    if k in act:
        return None
    if getattr(it, 'summ_filter', None) and not it.summ_filter(b, bb):
        return None
    loop = b.loops[bb]
    bottom = bottom_exits(b, loop, bb)

    def iterate(s0):
        backs, exits = [], []
        first = [True]

        def stop(s, x):
            if x == bb:
                if first[0]:
                    first[0] = False
                    return False
                settle(s)
                backs.append(s)
                return True
            if x not in loop:
                exits.append((s, x))
                return True
            return False
        act.add(k)
        try:
            outs = it.run(b, fr, [(s0, bb, {})], stop)
        finally:
            act.discard(k)
        assert not outs
        return backs, exits
    logs = [it.panics] + getattr(it, 'logs', [])
    marks = [len(x) for x in logs]

    def reset():
        for x, m in zip(logs, marks):
            del x[m:]
    entry = st.copy()
    backs, exits = iterate(st.copy())
    if not backs:
        return [(s, x, vis) for s, x in exits]
    # a loop tested at its bottom: an exit there comes after a full iteration
    backs = backs + late(exits, backs, bottom)
    name = ('loop', b.npath, bb, fr)
    lins_prev = None
    unbounded = set()
    changed = {}
    allbacks = list(backs)
    for rnd in range(14):
        reset()
        g = Gen(entry, name + (rnd,))
        g.unbounded = unbounded
        g.rkind = getattr(it, 'summ_rkind', 'havoc')
        gs = entry.copy()
        g.facts0 = entry.facts
        objs = {}
        work = list(entry.mem)
        keys = {}
        newobj = {}
        for o in work:
            a = entry.mem[o]
            bs = [x.mem.get(o) for x in allbacks]
            ch = changed.get(o)
            v = g.gen((o,), a, bs, None)
            if isinstance(v, tuple) and v and v[0] == 'vec':
                v = fresh_vec(it, g, gs, entry, a, allbacks, bs, (o,))
            v = fix_vecs(it, g, gs, entry, v, a, allbacks, bs, (o,))
            gs.mem[o] = v
        # candidates
        xs = list(g.lins.items())
        pool = set()
        for o in entry.mem:
            if o[0] != 'K':
                lins_of(entry.mem[o], pool)
        cands = []
        first = allbacks[0]
        for key, (x, e0) in xs:
            cands.append(x - e0)
            cands.append(e0 - x)
            for T in pool:
                if T != e0:
                    cands.append(T - x)
                    cands.append(x - T)
                    cands.append(T - x - 1)
        deltas = {}
        sdeltas = []
        for key, (x, e0) in xs:
            v = eval_key(first, key[0], key[1:])
            if isinstance(v, Lin):
                d = first.canon(v - e0)
                if d.is_const():
                    deltas[key] = d.c
                else:
                    sdeltas.append((key, d))
        ks = list(deltas)
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                (x, e0), (y, f0) = g.lins[ks[i]], g.lins[ks[j]]
                q = (x - e0) * deltas[ks[j]] - (y - f0) * deltas[ks[i]]
                cands.append(q)
                cands.append(-q)
        for i in range(len(sdeltas)):
            for j in range(i):
                (k1, d1), (k2, d2) = sdeltas[i], sdeltas[j]
                for sg in (1, -1):
                    if first.facts.ent_eq(d1 - d2 * sg):
                        (x, e0), (y, f0) = g.lins[k1], g.lins[k2]
                        q = (x - e0) - (y - f0) * sg
                        cands.append(q)
                        cands.append(-q)
        esub = {x.t[0][0]: e0 for _, (x, e0) in xs}
        good = []
        seen = set()
        for cd in cands:
            if cd in seen or cd.is_const():
                continue
            seen.add(cd)
            if entry.facts.ent_ge(subst(cd, esub)):
                good.append(cd)
        # preserved?
        stable = False
        tested = False
        while not stable:
            cur = gs.copy()
            for cd in good:
                if not cur.facts.add_ge(cd):
                    break
            reset()
            backs, exits = iterate(cur.copy())
            ends = late(exits, backs, bottom)
            backs = backs + ends
            bad = set()
            grow = False
            for s in backs:
                bsub = {}
                for key, (x, e0) in xs:
                    v = eval_key(s, key[0], key[1:])
                    if not isinstance(v, Lin):
                        raise I.Unsupported('loop variable at %s' % b.where(it.block_line(b, bb)))
                    bsub[x.t[0][0]] = v
                    if key in g.counters:
                        d = s.canon(v - x)
                        if not (d.is_const() and 0 <= d.c <= STEP):
                            unbounded.add(key)
                            grow = True
                for cd in good if s not in ends else ():
                    if cd not in bad and not s.facts.ent_ge(subst(cd, bsub)):
                        bad.add(cd)
                if not grow and not covers(gs, s, g):
                    grow = True
            if grow:
                allbacks = allbacks + backs
                break
            if not bad:
                if not tested:
                    tested = True
                    more = [cd for cd in tests(cur, [s for s, x in exits if s not in ends], xs) if cd not in seen and not cur.facts.ent_ge(cd)
                            and entry.facts.ent_ge(subst(cd, esub))]
                    if more:
                        cands += more
                        good += more
                        continue
                stable = True
            good = [cd for cd in good if cd not in bad]
        if stable:
            exits = [(after(cur, s, xs, cands, good, pool, g), x) if s in ends else (s, x) for s, x in exits]
            rep = getattr(it, 'summ_report', None)
            if rep is not None:
                rep(Report(b, bb, entry, cur, backs, [(s.copy(), x) for s, x in exits], g, good))
            return [(s, x, vis) for s, x in exits]
    raise I.Unsupported('no loop summary at %s' % b.where(it.block_line(b, bb)))


def tests(cur, exits, xs):
    """The opposites of the conditions on loop variables under which the loop ends."""
    ids = [x.t[0][0] for _, (x, e0) in xs]
    out = {}
    for s in exits:
        f = s.facts
        for l in f.ge:
            if l not in cur.facts.ge and any(i in ids for i, _ in l.t):
                out[-l] = True
        for i in ids:
            x = Lin.of(i)
            if i in f.sub:
                out[x - f.sub[i]] = True
                out[f.sub[i] - x] = True
                continue
            lo, hi = f.bounds(x)
            if lo is not None and lo != cur.facts.bounds(x)[0]:
                out[Lin(lo) - x] = True
            if hi is not None and hi != cur.facts.bounds(x)[1]:
                out[x - hi] = True
    return list(out)


def bottom_exits(b, loop, head):
    """Exit blocks of a loop that are reached only from blocks whose other way leads straight back to the header."""
    out, no = set(), set()
    for x in loop:
        ss = b.succ(x)
        for y in ss:
            if y not in loop:
                (out if x != head and any(straight(b, z, head) for z in ss if z in loop) else no).add(y)
    return out - no


def late(exits, backs, bottom):
    """The exits taken after a full iteration by a test of the loop variables alone."""
    return [s for s, x in exits if x in bottom and any(s.dec == t.dec for t in backs)]


def straight(b, x, head):
    seen = set()
    while x != head:
        k = b.blocks[x]
        if x in seen or k['t'][0] not in ('goto', 'drop') or any(not unit(q) for q in k['s']):
            return False
        seen.add(x)
        x = b.succ(x)[0]
    return True


def unit(q):
    return q[0] != '=' and q[0] != 'setd' or q[0] == '=' and len(q[1]) == 1 and q[2][0] == 'use' and isinstance(q[2][1], dict) and 'c' in q[2][1]


def mentions(v, ids):
    """May the value depend on the given atoms or on what a loop changed?"""
    if isinstance(v, Lin):
        return any(i in ids or mentions(ATOMS[i].args, ids) for i, _ in v.t)
    if isinstance(v, tuple):
        return v[:1] == ('loop',) or any(mentions(x, ids) for x in v)
    if isinstance(v, (Agg, Ptr, Opq, Region)):
        return mentions(v._k(), ids)
    return not isinstance(v, (int, str, bool, type(None)))


def after(cur, s, xs, cands, good, pool, g):
    """The state after the last iteration of a loop tested at its bottom, with the header's variables standing for their final values."""
    z = cur.copy()
    z.facts = g.facts0.copy()
    sub = {}
    for key, (x, e0) in xs:
        sub[x.t[0][0]] = eval_key(s, key[0], key[1:])
    more = []
    for key, (x, e0) in xs:
        v = s.canon(sub[x.t[0][0]])
        lo, hi = s.facts.bounds(v)
        for c in (lo, hi):
            if c is not None:
                more += [x - c, Lin(c) - x]
        for T in pool:
            more += [T - x, x - T]
    for cd in list(good) + list(cands) + more:
        if s.facts.ent_ge(subst(cd, sub)):
            z.facts.add_ge(cd)
    for key, (f, e0) in g.bools.items():
        d = s.decide(eval_key(s, key[0], key[1:]))
        if d is not None:
            z = z.assume(f, d)[0]
    for o, v in s.mem.items():
        if o not in z.mem or z.mem[o] == UNINIT:
            z.mem[o] = UNINIT if mentions(v, sub) else v
    return z


def fresh_vec(it, g, gs, entry, a, backs, bs, key):
    va = entry.mem.get(a.obj)
    vb = [s.mem.get(x.obj) for s, x in zip(backs, bs)]
    o = ('H', ('lp',) + (g.name, key))
    gs.mem[o] = g.gen(key + ('*',), va, vb, None)
    return VecV(o)


def fix_vecs(it, g, gs, entry, v, a, backs, bs, key):
    """Replace the markers of generalised vectors inside aggregates."""
    if isinstance(v, Agg) and isinstance(a, Agg) and len(v.f) == len(a.f):
        f = list(v.f)
        ch = False
        for i, x in enumerate(f):
            if isinstance(x, tuple) and x and x[0] == 'vec':
                f[i] = fresh_vec(it, g, gs, entry, a.f[i], backs, [b.f[i] for b in bs], key + (i,))
                ch = True
            elif isinstance(x, Agg) and isinstance(a.f[i], Agg):
                try:
                    y = fix_vecs(it, g, gs, entry, x, a.f[i], backs, [b.f[i] for b in bs], key + (i,))
                except (AttributeError, IndexError):
                    continue
                if y is not x:
                    f[i] = y
                    ch = True
        if ch:
            return Agg(v.tag, v.var, f)
    return v


def covers(gs, s, g):
    """Everything gs keeps from the entry state is unchanged in s."""
    gl = {x for x, _ in g.lins.values()}
    for o, v in gs.mem.items():
        if o[0] == 'H' and isinstance(o[1], tuple):
            continue
        if not cov(v, s.mem.get(o), gl):
            return False
    return True


def cov(v, w, gl):
    if v == UNINIT:
        return True
    if isinstance(v, Lin) and v in gl:
        return isinstance(w, Lin)
    if isinstance(v, Sp) and v.t[0] == 'havoc':
        return isinstance(w, Sp)
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'op' and isinstance(v[1], tuple) and v[1][0] == 'lpb':
        return isinstance(w, (bool, tuple))
    if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key and v.key[0] in ('lpmix', 'lpseq'):
        return True
    if isinstance(v, Agg):
        return isinstance(w, Agg) and w.tag == v.tag and w.var == v.var and len(w.f) == len(v.f) and all(cov(x, y, gl) for x, y in zip(v.f, w.f))
    if isinstance(v, Region) and len(v.c) == 1 and (v.c[0][1] == 'havoc' or v.c[0][1] == 'src' and isinstance(v.c[0][2], tuple) and v.c[0][2][:1] == ('loop',)):
        return isinstance(w, Region) and cov(v.n, w.n, gl)
    if isinstance(v, Ptr):
        if not isinstance(w, Ptr) or w.base() != v.base():
            return v == w
        return cov(v.off(), w.off(), gl) and (v.meta == w.meta or cov(v.meta, w.meta, gl))
    if isinstance(v, VecV):
        return isinstance(w, VecV) and (v == w or isinstance(v.obj[1], tuple))
    if isinstance(v, Seq) and v.base and v.base[0] == 'opq' and not v.w:
        return isinstance(w, Seq) and cov(v.n, w.n, gl)
    if isinstance(v, Seq):
        return isinstance(w, Seq) and (v == w or v.items is not None and w.items is not None and len(v.items) == len(w.items) and all(cov(x, y, gl) for x, y in zip(v.items, w.items)))
    if isinstance(v, Smash):
        return isinstance(w, Smash) and v.lo <= w.lo and w.hi <= v.hi
    return v == w
