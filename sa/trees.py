"""Merkle trees: the complete tree and the traversal, over uninterpreted leaves and hashes."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import loops, shape
from .models import some, NONE, deref
from .group import Missing, panic_sites
from .sponge import opaque
from .mss import inst, TM

MC = 'mss::mtcomplete::MT'
MV = 'mss::mttraversal::MT'
ST = 'mss::mttraversal::Stack'
ND = 'mss::mttraversal::Node'
AP = 'mss::mt::APath'
P16, P17, P24 = ('C16',), ('C17', 'C30'), ('C24', 'C30')


def T(m, t):
    return '<%s as %s>::%s' % (t, TM, m)


def ts(d):
    return (2 << d) - 1


def world(g):
    w = opaque(g)
    it = w.it
    it.unroll = 4000
    it.max_states = 300

    def leaf(it, st, a, c, t):
        return Opq(('leaf', st.canon(a[1])))

    def merge(it, st, a, c, t):
        return Opq(('merge', deref(it, st, a[1]), deref(it, st, a[2])))
    it.hooks['<mss::mss::SK as mss::mt::GenLeaf>::gen_leaf'] = leaf
    it.hooks['<T as mss::mt::GenLeaf>::gen_leaf'] = leaf
    it.hooks['mss::mt::GenLeaf::gen_leaf'] = leaf
    it.hooks['<T as mss::mt::MergeNodes>::merge_nodes'] = merge
    it.hooks['mss::mt::MergeNodes::merge_nodes'] = merge
    it.hooks['<trits::trits::TritsT as std::clone::Clone>::clone'] = lambda it, st, a, c, t: deref(it, st, a[0])
    return w


def call(g, w, path, args, want=None, st=None):
    w.b = inst(g, path, want=want)
    g.fn(w.b)
    outs = w.it.exec_body(w.st if st is None else st, w.b, args)
    g.use(w.it)
    return outs


def N(d, i):
    """The node the tree is defined by."""
    if d == 0:
        return Opq(('leaf', L(i)))
    return Opq(('merge', N(d - 1, 2 * i), N(d - 1, 2 * i + 1)))


def vec(w, items=None, n=None, name=None, st=None):
    o = ('S', name) if name else None
    s = Seq(Lin(len(items)), tuple(items)) if items is not None else Seq(L(n), None, ('opq', name))
    if o is None:
        return VecV(w.it.new_obj(st or w.st, s))
    (st or w.st).mem[o] = s
    return VecV(o)


def items(s, v):
    """Elements of a vector with known elements (pending writes applied)."""
    q = s.mem[v.obj]
    if isinstance(q, Region) and s.facts.ent_eq(q.n):
        return []
    n = s.canon(q.n)
    if not n.is_const():
        raise I.Unsupported('vector of unknown length')
    out = []
    for i in range(n.c):
        x = None
        for j, val in q.w:
            if s.facts.ent_eq(j - i):
                x = val
            elif not s.facts.ent_ge(j - i - 1) and not s.facts.ent_ge(i - j - 1):
                raise I.Unsupported('vector element')
        if x is None:
            if q.items is not None:
                x = q.items[i]
            elif q.base and q.base[0] == 'opq':
                x = Opq(('elt', q.base[1], Lin(i)))
            else:
                raise I.Unsupported('vector element')
        out.append(x)
    return out


def deep(s, v):
    """A value with its vectors resolved."""
    if isinstance(v, VecV):
        return ('vec', tuple(deep(s, x) for x in items(s, v)))
    if isinstance(v, Agg):
        return (v.tag, v.var, tuple(deep(s, x) for x in v.f))
    if isinstance(v, Lin):
        return s.canon(v)
    return v


def bit_of(x, j):
    return I.pos_div(x, 1 << j) - I.pos_div(x, 2 << j) * 2


# ------------------------------------------------------------------ complete tree
def complete(g, w, h, skn, n=None):
    v = vec(w, n=ts(h) if n is None else n, name='nodes')
    o = ('S', ('mt',))
    w.st.mem[o] = shape.make(g.P, MC, height=Lin(h), skn=skn, nodes=v)
    return Ptr(o)


def f(g, v, name, t=MC):
    return shape.get(g.P, v, t, name)


def c_simple(g, h):
    top = 1 << h
    for name in ('height', 'skn', 'root', 'next', 'store', 'apath'):
        pids = {'height': P17, 'skn': P16, 'root': P17, 'next': P16 + P17, 'store': P16 + P17, 'apath': P24 + P16}[name]

        def one(name=name, pids=pids):
            w = world(g)
            skn = fresh('skn', 0, top if name != 'apath' else top - 1)
            p = complete(g, w, h, skn)
            e = w.st.mem[p.obj]
            outs = call(g, w, T(name, MC), [p] + ([Ptr(('S', ('g',))), Ptr(('S', ('m',)))] if name == 'next' else []))
            lab = 'complete tree: %s' % name
            where = w.b.where()
            panic_sites(g, pids, w.it, lab)
            g.check(pids, outs, '%s: returns' % lab, '', where)
            for s, v in outs:
                x = s.mem[p.obj]
                if name == 'next':
                    k2 = f(g, x, 'skn')
                    g.check(P16, s.facts.ent_eq(k2 - skn - 1) or s.facts.ent_eq(k2 - skn) and s.facts.ent_ge(skn - top), '%s: advances by exactly one, up to the number of leaves' % lab,
                            'height %d: from %r to %r' % (h, s.facts.bounds(skn), s.canon(k2 - skn)), where)
                    g.check(P16, s.facts.ent_ge(Lin(top) - k2), '%s: never beyond the number of leaves' % lab, 'height %d: %r' % (h, s.facts.bounds(k2)), where)
                    r = [z.decide(f_not(f_eq(k2 - top))) for z in s.copy().assume(v, True) if z.facts.consistent()] + \
                        [z.decide(f_eq(k2 - top)) for z in s.copy().assume(v, False) if z.facts.consistent()]
                    g.check(P16, all(q is True for q in r), '%s: reports exactly whether a key is left' % lab, 'height %d' % h, where)
                    g.check(P17, f(g, x, 'height') == f(g, e, 'height') and same_nodes(s, f(g, x, 'nodes'), w.st, f(g, e, 'nodes')), '%s: keeps the tree, also after the last key' % lab, repr(x)[:300], where)
                    continue
                g.check(P16 + P17, x == e and s.mem[('S', 'nodes')] == w.st.mem[('S', 'nodes')], '%s: changes nothing' % lab, repr(x)[:200], where)
                if name == 'height':
                    g.check(pids, s.same(v, Lin(h)), '%s: the height' % lab, repr(v), where)
                elif name == 'skn':
                    g.check(pids, s.same(v, skn), '%s: the current number' % lab, repr(v), where)
                elif name == 'root':
                    ok = isinstance(v, Ptr) and v.obj == ('S', 'nodes') and s.facts.ent_eq(v.off() - (ts(h) - 1))
                    g.check(pids, ok, '%s: the last node for every key number' % lab, 'height %d: %r' % (h, v), where)
                elif name == 'store':
                    ok = s.same(v.f[0], Lin(h)) and s.same(v.f[1], skn) and same_nodes(s, v.f[2], w.st, f(g, e, 'nodes'))
                    g.check(pids, ok, '%s: height, number and all nodes' % lab, repr(v), where)
                else:
                    ns = items(s, f(g, v, 'nodes', AP))
                    g.check(pids, s.same(f(g, v, 'skn', AP), skn), '%s: carries the current number' % lab, repr(v), where)
                    g.check(pids, len(ns) == h, '%s: one node per level' % lab, 'height %d: %d nodes' % (h, len(ns)), where)
                    for j, x in enumerate(ns):
                        # level j counted from the leaves: nodes start at ts(h) - ts(h - j)
                        base = ts(h) - ts(h - j)
                        sib = I.pos_div(skn, 1 << j) + 1 - bit_of(skn, j) * 2
                        i = x.key[2] if isinstance(x, Opq) and x.key[0] == 'elt' else None
                        g.check(pids, i is not None and s.facts.ent_eq(i - base - sib), '%s: sibling of the current path at every level, leaf to root' % lab,
                                'height %d, level %d: node %r' % (h, j, None if i is None else s.canon(i - base)), where)
        g.guard(one, 'complete tree: ' + name, pids, ())


def same_nodes(s, v, s0, v0):
    a, b = s.mem[v.obj], s0.mem[v0.obj]
    return a == b or isinstance(a, Seq) and isinstance(b, Seq) and s.same(a.n, b.n) and a.base == b.base and a.items == b.items and not a.w and not b.w


def c_load(g, h):
    w = world(g)
    n = fresh('n', 0, 1 << 40)
    skn = fresh('skn', 0, 1 << 40)
    v = vec(w, n=n, name='nodes')
    outs = call(g, w, T('load', MC), [Lin(h), skn, v])
    lab = 'complete tree: load'
    pids = P16 + P17
    where = w.b.where()
    panic_sites(g, pids, w.it, lab)
    g.check(pids, outs, '%s: returns' % lab, '', where)
    for s, r in outs:
        if r.var == 0:
            bad = [z for z in s.copy().assume(f_and(f_ge(Lin(1 << h) - skn), f_eq(n - ts(h))), True) if z.facts.consistent()]
            g.check(pids, not bad, '%s: accepts every stored tree' % lab, 'height %d' % h, where)
            continue
        x = r.f[0]
        g.check(P16, s.facts.ent_ge(Lin(1 << h) - skn), '%s: rejects key numbers beyond the number of leaves' % lab, 'height %d: %r' % (h, s.facts.bounds(skn)), where)
        g.check(P17, s.facts.ent_eq(n - ts(h)), '%s: rejects an incomplete tree' % lab, 'height %d: %r nodes' % (h, s.facts.bounds(n)), where)
        ok = s.same(f(g, x, 'height'), Lin(h)) and s.same(f(g, x, 'skn'), skn) and same_nodes(s, f(g, x, 'nodes'), w.st, v)
        g.check(pids, ok, '%s: restores height, number and all nodes' % lab, repr(x)[:200], where)


def c_gen(g, h):
    w = world(g)
    it = w.it
    it.loop_hook = loops.summarise
    it.summ_rkind = 'src'
    it.summ_report = w.reps.append
    it.summ_filter = lambda b, bb: not any(x != bb and x in b.loops[bb] for x in b.loop_headers())
    outs = call(g, w, T('gen', MC), [Ptr(('S', ('g',))), Ptr(('S', ('m',))), Lin(h)])
    lab = 'complete tree: gen'
    pids = P24 + P17
    where = w.b.where()
    panic_sites(g, pids, it, lab)
    g.check(pids, outs, '%s: returns' % lab, '', where)
    for s, x in outs:
        n = s.mem[f(g, x, 'nodes').obj]
        g.check(pids, s.same(f(g, x, 'height'), Lin(h)) and s.facts.ent_eq(n.n - ts(h)), '%s: a complete tree' % lab, 'height %d: %r nodes' % (h, s.facts.bounds(n.n)), where)
        g.check(P16, s.facts.ent_eq(f(g, x, 'skn')), '%s: starts at key 0' % lab, repr(f(g, x, 'skn')), where)
    seen = 0
    for R in w.reps:
        for s in R.backs:
            for o, hd in R.head.mem.items():
                q = s.mem.get(o)
                if not isinstance(hd, Seq) or not isinstance(q, Seq) or q == hd:
                    continue
                g.check(pids, q.base == hd.base and len(q.w) == len(hd.w) + 1 and s.facts.ent_eq(q.n - hd.n - 1) and s.facts.ent_eq(q.w[-1][0] - hd.n),
                        '%s: one node appended per step' % lab, repr(q)[:300], where)
                p, val = q.w[-1]
                seen += 1
                node_ok(g, pids, s, h, p, val, lab, where)
    if not seen and h > 1:
        raise I.Unsupported('generation loops')


def node_ok(g, pids, s, h, p, val, lab, where):
    """val at position p is the leaf, or the hash of the two nodes below, left first."""
    leaves = [z for z in s.copy().assume(f_ge(Lin((1 << h) - 1) - p), True) if z.facts.consistent()]
    for z in leaves:
        ok = isinstance(val, Opq) and val.key[0] == 'leaf' and z.facts.ent_eq(val.key[1] - p)
        g.check(pids, ok, '%s: leaf i at position i' % lab, 'height %d: %r at %r' % (h, val, z.facts.bounds(p)), where)
    for d in range(h):
        b0, b1 = ts(h) - ts(d), ts(h) - ts(d + 1)
        for z in s.copy().assume(f_and(f_ge(p - b0), f_ge(Lin(b0 + (1 << d) - 1) - p)), True):
            if not z.facts.consistent():
                continue
            i = p - b0
            ok = isinstance(val, Opq) and val.key[0] == 'merge' and all(isinstance(k, Opq) and k.key[0] in ('elt', 'leaf') for k in val.key[1:])
            ok = ok and z.facts.ent_eq(idx(val.key[1]) - b1 - i * 2) and z.facts.ent_eq(idx(val.key[2]) - b1 - i * 2 - 1)
            g.check(pids, ok, '%s: node i is the hash of nodes 2i and 2i+1 of the level below, left first' % lab, 'height %d, level %d: %s' % (h, d, repr(val)[:300]), where)


def idx(x):
    return x.key[2] if x.key[0] == 'elt' else x.key[1]


def c_node(g, h):
    """idx/node: the position of node i of level d."""
    for d in range(h + 1):
        w = world(g)
        p = complete(g, w, h, Lin(0))
        i = fresh('i', 0, (1 << d) - 1)
        for s, v in call(g, w, MC + '::node', [p, Lin(d), i]):
            g.check(P24, isinstance(v, Ptr) and v.obj == ('S', 'nodes') and s.facts.ent_eq(v.off() - (ts(h) - ts(d)) - i), 'complete tree: node i of level d at its position', 'height %d level %d: %r' % (h, d, v), w.b.where())
        panic_sites(g, P24, w.it, 'complete tree: node')


# ------------------------------------------------------------------ traversal
def update(g):
    """One treehash step of a stack."""
    lab = 'traversal: stack update'
    seen = set()
    for kind in ('empty', 'single', 'pair', 'above', 'below'):
        for top in ('finished', 'open'):
            if kind != 'empty' or top == 'open':
                update1(g, kind, top, lab, seen)
    g.check(P24, seen == {'finished', 'merge', 'leaf', 'idle'}, '%s: returns' % lab, repr(seen), inst(g, ST + '::update').where())


def update1(g, kind, top, lab, seen):
    w = world(g)
    st = w.st
    D = fresh('D', 0, 20)
    i0 = fresh('i', 0, 1 << 20)
    h = fresh('h', 0, 20)
    n = {'empty': Lin(0), 'single': Lin(1)}.get(kind) or fresh('n', 2, 40)
    nd = lambda j: atom('nd', (st.canon(j),), 0, 20)
    ni = lambda j: atom('ni', (st.canon(j),), 0, (1 << 20) - 1)
    nh = lambda j: Opq(('nh', st.canon(j)))
    nodes = {}

    def node(it, s, j):
        return shape.make(g.P, ND, d=nd(j), i=ni(j), h=nh(j))
    o = ('S', 'stk')
    st.mem[o] = Seq(n, None, ('fn', node))
    po = ('S', ('stack',))
    st.mem[po] = shape.make(g.P, ST, d=D, i=i0, s=VecV(o))
    t, b = n - 1, n - 2
    if kind == 'pair':
        # two nodes of the same level on top of each other are siblings, left below right
        st.facts.add_eq(ni(b) - I.pos_div(ni(b), 2) * 2)
        st.facts.add_eq(ni(t) - ni(b) - 1)
        st.facts.add_eq(nd(t) - nd(b))
    elif kind == 'above':
        st.facts.add_ge(nd(t) - nd(b) - 1)
    elif kind == 'below':
        st.facts.add_ge(nd(b) - nd(t) - 1)
    if kind != 'empty':
        st.facts.add_ge(nd(t) - D if top == 'finished' else D - nd(t) - 1)
    if not st.facts.consistent():
        raise I.Unsupported('stack ' + kind)
    p2 = atom('pow2', (h,), 1, 1 << 63)
    case = 'finished' if top == 'finished' else 'merge' if kind == 'pair' else None
    outs = call(g, w, ST + '::update', [Ptr(po), Ptr(('S', ('g',))), Ptr(('S', ('m',))), h])
    where = w.b.where()
    panic_sites(g, P24, w.it, lab)
    for z0, v in outs:
        for z, cs in [(z0, case)] if case else cases(z0, [('leaf', f_ge(p2 - i0 - 1)), ('idle', True)]):
            seen.add(cs)
            one_step(g, z, cs, (po, D, i0, n, nd, ni), lab, where)


def one_step(g, s, case, a, lab, where):
    po, D, i0, n, nd, ni = a
    t, b = n - 1, n - 2
    x = s.mem[po]
    q = s.mem[f(g, x, 's', ST).obj]
    g.check(P24, s.same(f(g, x, 'd', ST), D), '%s: keeps the level of the stack' % lab, repr(x), where)
    if case in ('finished', 'idle'):
        ok = s.same(f(g, x, 'i', ST), i0) and s.same(q.n, n) and not q.w
        g.check(P24, ok, '%s: a finished stack stays as it is' % lab, '%s: %s' % (case, repr((x, q))[:300]), where)
        return
    if not (isinstance(q, Seq) and len(q.w) >= 1):
        g.check(P24, False, '%s: one step per call' % lab, 'no step in case %s' % case, where)
        return
    z = q.w[-1][1]
    if case == 'leaf':
        ok = s.same(q.n, n + 1) and s.same(f(g, x, 'i', ST), i0 + 1) and len(q.w) == 1 and s.same(q.w[-1][0], n)
        ok = ok and s.same(f(g, z, 'd', ND), Lin(0)) and s.same(f(g, z, 'i', ND), i0) and f(g, z, 'h', ND).key[0] == 'leaf' and s.same(f(g, z, 'h', ND).key[1], i0)
        g.check(P24, ok, '%s: otherwise the next leaf is added' % lab, repr((x, q.w))[:300], where)
        return
    hh = f(g, z, 'h', ND)
    ok = s.same(q.n, n - 1) and s.same(f(g, x, 'i', ST), i0) and s.same(q.w[-1][0], n - 2)
    ok = ok and s.same(f(g, z, 'd', ND), nd(b) + 1) and s.facts.ent_eq(f(g, z, 'i', ND) * 2 - ni(b))
    g.check(P24, ok, '%s: two nodes of one level become their parent' % lab, repr((x, z))[:300], where)
    ok = isinstance(hh, Opq) and hh.key[0] == 'merge' and hh.key[1] == Opq(('nh', s.canon(b))) and hh.key[2] == Opq(('nh', s.canon(t)))
    g.check(P24, ok, '%s: the left node is the left operand' % lab, repr(hh)[:300], where)


def cases(s, cs):
    """Split a state by the first condition that holds."""
    out = []
    rest = [s]
    for name, c in cs:
        nxt = []
        for z in rest:
            if c is True:
                out.append((z, name))
                continue
            out += [(y, name) for y in z.copy().assume(c, True) if y.facts.consistent()]
            nxt += [y for y in z.assume(c, False) if y.facts.consistent()]
        rest = nxt
    return out


def trav(g, w, h, skn, nodes=None, name='mt'):
    """A traversal whose every stack holds one finished node."""
    st = w.st
    stacks = []
    for d in range(h):
        n = shape.make(g.P, ND, d=Lin(d), i=atom('si', (d,), 0, 1 << 20), h=Opq(('stk', d)))
        stacks.append(shape.make(g.P, ST, d=Lin(d), i=atom('ss', (d,), 0, 1 << 20), s=vec(w, [n], name=('st', d))))
    ap = shape.make(g.P, AP, skn=skn, nodes=vec(w, [Opq(('ap', d)) for d in range(h)], name='apn'))
    o = ('S', ('mt',))
    st.mem[o] = shape.make(g.P, MV, height=Lin(h), root=Opq(('root',)), apath=ap, stacks=vec(w, stacks, name='stacks'))
    return Ptr(o)


def v_next(g, h):
    w = world(g)

    def upd(it, st, a, c, t):
        x = it.read_path(st, a[0])
        v = f(g, x, 's', ST)
        old = (deep(st, f(g, x, 'd', ST)), deep(st, f(g, x, 'i', ST)), st.mem[v.obj].base if st.mem[v.obj].items is None else deep(st, v))
        st.event('upd', st.canon(L(a[3])))
        st.mem[v.obj] = Seq(fresh('n', 1, 40), None, ('opq', ('upd', old)))
        return UNIT
    w.it.hooks[ST + '::update'] = upd
    top = 1 << h
    skn = fresh('skn', 0, top)
    p = trav(g, w, h, skn)
    e = w.st.mem[p.obj]
    outs = call(g, w, T('next', MV), [p, Ptr(('S', ('g',))), Ptr(('S', ('m',)))])
    lab = 'traversal: next'
    where = w.b.where()
    panic_sites(g, P16 + P17 + P24, w.it, lab)
    g.check(P16, outs, '%s: returns' % lab, '', where)
    for s, v in outs:
        x = s.mem[p.obj]
        ap = f(g, x, 'apath', MV)
        k2 = f(g, ap, 'skn', AP)
        g.check(P16, s.facts.ent_eq(k2 - skn - 1) or s.facts.ent_eq(k2 - skn) and s.facts.ent_ge(skn - top), '%s: advances by exactly one, up to the number of leaves' % lab,
                'height %d: from %r by %r' % (h, s.facts.bounds(skn), s.canon(k2 - skn)), where)
        g.check(P16, s.facts.ent_ge(Lin(top) - k2), '%s: never beyond the number of leaves' % lab, 'height %d: %r' % (h, s.facts.bounds(k2)), where)
        g.check(P17, f(g, x, 'root', MV) == Opq(('root',)) and s.same(f(g, x, 'height', MV), Lin(h)), '%s: keeps root and height' % lab, repr(x)[:300], where)
        last = s.decide(f_eq(k2 - top))
        g.check(P16, last is not None and v in (True, False) and v is (not last), '%s: reports exactly whether a key is left' % lab, 'height %d: %r %r' % (h, last, v), where)
        if last is not False:
            continue
        ns = items(s, f(g, ap, 'nodes', AP))
        sks = items(s, f(g, x, 'stacks', MV))
        g.check(P24, len(ns) == h and len(sks) == h, '%s: one path node and one stack per level' % lab, '', where)
        # split by the level at which the key number first is unaligned
        todo, level = [(s, 0)], []
        while todo:
            z, d = todo.pop()
            if d == h:
                level.append((z, h))
                continue
            al = f_eq(k2 - I.pos_div(k2, 1 << d) * (1 << d))
            r = z.decide(al)
            if r is not True:
                level += [(y, d) for y in ([z] if r is False else z.copy().assume(al, False)) if y.facts.consistent()]
            if r is not False:
                todo += [(y, d + 1) for y in ([z] if r is True else z.copy().assume(al, True)) if y.facts.consistent()]
        for z, first in level:
            for d in range(h):
                q = z.mem[f(g, sks[d], 's', ST).obj]
                if d < first:
                    i1 = k2 + (1 << d)
                    i1 = i1 + (1 << d) - (I.pos_div(i1, 1 << d) - I.pos_div(i1, 2 << d) * 2) * (2 << d)
                    g.check(P24, ns[d] == Opq(('stk', d)), '%s: at the start of a subtree its finished neighbour becomes the path node' % lab, 'height %d level %d: %r' % (h, d, ns[d]), where)
                    okq = upd_of(q, 2, lambda o: z.facts.ent_eq(o[1] - i1) and o[2] == ('vec', ()))
                    g.check(P24, okq, '%s: and the stack starts over at the subtree needed next, two steps per key' % lab, 'height %d level %d: %s' % (h, d, repr(q)[:300]), where)
                else:
                    g.check(P24, ns[d] == Opq(('ap', d)), '%s: other path nodes stay' % lab, 'height %d level %d: %r' % (h, d, ns[d]), where)
                    okq = upd_of(q, 2, lambda o: z.facts.ent_eq(o[1] - atom('ss', (d,), 0, 1 << 20)) and isinstance(o[2], tuple) and o[2][0] == 'vec' and len(o[2][1]) == 1)
                    g.check(P24, okq, '%s: other stacks only take two steps' % lab, 'height %d level %d: %s' % (h, d, repr(q)[:300]), where)
        ev = [x for x in s.events() if x[0] == 'upd']
        g.check(P24, all(s.facts.ent_eq(x[1] - h) for x in ev), '%s: stacks are updated for the height of the tree' % lab, repr(ev)[:200], where)


def upd_of(q, k, base):
    """q is the result of exactly k updates of a stack satisfying base."""
    for j in range(k):
        if not (isinstance(q, Seq) and q.items is None and q.base and q.base[0] == 'opq' and isinstance(q.base[1], tuple) and q.base[1][0] == 'upd' and not q.w):
            return False
        o = q.base[1][1]
        if j == k - 1:
            return base(o)
        q = Seq(Lin(0), None, o[2]) if isinstance(o[2], tuple) and o[2] and o[2][0] == 'opq' else None
    return False


def v_simple(g, h):
    top = 1 << h
    for name in ('height', 'skn', 'root', 'apath'):
        pids = {'height': P17, 'skn': P16, 'root': P17, 'apath': P24 + P16}[name]

        def one(name=name, pids=pids):
            w = world(g)
            skn = fresh('skn', 0, top)
            p = trav(g, w, h, skn)
            e = deep(w.st, w.st.mem[p.obj])
            outs = call(g, w, T(name, MV), [p])
            lab = 'traversal: %s' % name
            where = w.b.where()
            panic_sites(g, pids, w.it, lab)
            g.check(pids, outs, '%s: returns' % lab, '', where)
            for s, v in outs:
                g.check(P16 + P17, deep(s, s.mem[p.obj]) == e, '%s: changes nothing' % lab, '', where)
                if name == 'height':
                    ok = s.same(v, Lin(h))
                elif name == 'skn':
                    ok = s.same(v, skn)
                elif name == 'root':
                    ok = isinstance(v, Ptr) and deref(w.it, s, v) == Opq(('root',)) and v.obj == p.obj
                else:
                    ok = s.same(f(g, v, 'skn', AP), skn) and items(s, f(g, v, 'nodes', AP)) == [Opq(('ap', d)) for d in range(h)]
                g.check(pids, ok, '%s: returns the stored %s' % (lab, name), repr(v)[:200], where)
        g.guard(one, 'traversal: ' + name, pids, ())


def known(g, s, v):
    """A value with its vectors resolved, without the fields this analysis does not know."""
    own = {MC: ('height', 'skn', 'nodes'), MV: ('height', 'root', 'apath', 'stacks'), AP: ('skn', 'nodes'), ST: ('d', 'i', 's'), ND: ('d', 'i', 'h')}
    if isinstance(v, VecV):
        return ('vec', tuple(known(g, s, x) for x in items(s, v)))
    if isinstance(v, Agg):
        if v.tag in own:
            return (v.tag,) + tuple(known(g, s, f(g, v, n, v.tag)) for n in own[v.tag])
        return (v.tag, v.var, tuple(known(g, s, x) for x in v.f))
    if isinstance(v, Lin):
        return s.canon(v)
    return v


def one_of(outs, what):
    if len(outs) != 1:
        raise I.Unsupported(what + ' of a concrete tree')
    return outs[0]


def observe(g, w, M, s, p, h, k, lab, where, when=''):
    """What the tree answers when key k of a tree of height h is the current one."""
    e = known(g, s, s.mem[p.obj])
    at = 'height %d, key %d%s: ' % (h, k, when)
    s, v = one_of(call(g, w, T('height', M), [p], st=s), 'height')
    g.check(P17, s.same(v, Lin(h)), '%s: height answers the height (small trees)' % lab, at + repr(v), where)
    s, v = one_of(call(g, w, T('skn', M), [p], st=s), 'key number')
    g.check(P16, s.same(v, Lin(k)), '%s: key numbers 0, 1, 2, ...' % lab, at + repr(v), where)
    s, v = one_of(call(g, w, T('root', M), [p], st=s), 'root')
    r = deref(w.it, s, v)
    g.check(P17, r == N(h, 0), '%s: the root is the hash of the whole tree and stays' % lab, at + repr(r)[:200], where)
    if k < 1 << h:
        s, v = one_of(call(g, w, T('apath', M), [p], st=s), 'path')
        v = deref(w.it, s, v) if isinstance(v, Ptr) else v
        ns = items(s, f(g, v, 'nodes', AP))
        g.check(P24, ns == [N(d, (k >> d) ^ 1) for d in range(h)], '%s: sibling of the current path at every level, leaf to root (small trees)' % lab, at + repr(ns)[:300], where)
        g.check(P16 + P24, s.same(f(g, v, 'skn', AP), Lin(k)), '%s: the path carries the current number (small trees)' % lab, at + repr(f(g, v, 'skn', AP)), where)
    g.check(P16 + P17, known(g, s, s.mem[p.obj]) == e, '%s: looking at a tree does not change it (small trees)' % lab, at, where)
    return s


def history(g, h, M):
    """Whole life of a small tree over uninterpreted leaves and hashes: what it answers, storing and loading."""
    w = world(g)
    lab = 'traversal' if M == MV else 'complete tree'
    try:
        history1(g, w, h, M, lab)
    finally:
        panic_sites(g, P16 + P17 + P24, w.it, lab)


def history1(g, w, h, M, lab):
    pids = P24 + P17
    grown = any(shape.extra(g.P, t, shape.fields(g.P, t)) for t in ((MC, AP) if M == MC else (MV, ST, ND, AP)))
    G, Mm = Ptr(('S', ('g',))), Ptr(('S', ('m',)))
    outs = call(g, w, T('gen', M), [G, Mm, Lin(h)], want='mss::mss::SK')
    where = w.b.where()
    g.check(pids, len(outs) == 1, '%s: gen returns' % lab, '', where)
    if len(outs) != 1:
        return
    s, x = outs[0]
    o = ('S', ('mt',))
    s.mem[o] = x
    p = Ptr(o)
    for k in range((1 << h) + 1):
        if k % 3 != 2:
            # nothing looks at the tree while some keys are current
            s = observe(g, w, M, s, p, h, k, lab, where)
        # store and load
        es = known(g, s, s.mem[o])
        for z, v in call(g, w, T('store', M), [p], st=s.copy()):
            cnt = len(items(z, v.f[2]))
            for y, m in call(g, w, T('load', M), [v.f[0], v.f[1], v.f[2]], st=z):
                ok = isinstance(m, Agg) and m.var == 1 and known(g, y, m.f[0]) == es
                g.check(P17 + P16, ok, '%s: load restores what store saved' % lab, 'height %d, key %d: %s' % (h, k, repr(m)[:200]), where)
                if not ok:
                    continue
                o2 = ('S', ('mt2',))
                y.mem[o2] = m.f[0]
                y = observe(g, w, M, y, Ptr(o2), h, k, lab, where, ' after loading')
                # all that follows depends on the known fields, unless there are others
                for j in range(k, (1 << h) + 1 if grown and h <= 4 else k + 1):
                    y, n = one_of(call(g, w, T('next', M), [Ptr(o2), G, Mm], st=y, want='mss::mss::SK'), 'next')
                    g.check(P16, n is (j + 1 < 1 << h), '%s: next reports whether a key is left' % lab, 'height %d, key %d after loading: %r' % (h, j, n), where)
                    y = observe(g, w, M, y, Ptr(o2), h, min(j + 1, 1 << h), lab, where, ' after loading an earlier one')
            z = s.copy()
            n = fresh('n', 0, 1 << 20)
            vv = vec(w, n=n, name=('ld', k), st=z)
            for y, m in call(g, w, T('load', M), [Lin(h), Lin(k), vv], st=z):
                if m.var == 1:
                    g.check(P17, y.facts.ent_eq(n - cnt), '%s: load rejects a wrong number of nodes' % lab, 'height %d, key %d: %r nodes instead of %d' % (h, k, y.facts.bounds(n), cnt), where)
        s, v = one_of(call(g, w, T('next', M), [p, G, Mm], st=s, want='mss::mss::SK'), 'next')
        g.check(P16, v is (k + 1 < 1 << h), '%s: next reports whether a key is left' % lab, 'height %d, key %d: %r' % (h, k, v), where)
    observe(g, w, M, s, p, h, 1 << h, lab, where, ' and beyond')
    g.check(P16 + P17, known(g, s, s.mem[o]) == es, '%s: nothing changes after the last key' % lab, 'height %d: %s' % (h, repr(s.mem[o])[:200]), where)


def v_gen(g, h):
    """Generation: one arbitrary step of the treehash loop puts every node where it belongs."""
    w = world(g)
    it = w.it
    o = ('S', 'gap')
    new = ('S', 'gst')

    def apnew(it, st, a, c, t):
        st.mem[o] = Seq(Lin(0), ())
        return shape.make(g.P, AP, skn=Lin(0), nodes=VecV(o))

    def stnew(it, st, a, c, t):
        v = ('S', ('gs', st.canon(L(a[0]))))
        st.mem[v] = Seq(Lin(0), ())
        return shape.make(g.P, ST, d=a[0], i=Lin(0), s=VecV(v))

    def upd(it, st, a, c, t):
        """Contract: the top becomes the next node (d, i) of the tree in post-order."""
        x = it.read_path(st, a[0])
        vec = f(g, x, 's', ST)
        ok = st.same(f(g, x, 'd', ST), Lin(h)) and st.same(L(a[3]), Lin(h))
        g.check(P24, ok, 'traversal: gen: the treehash stack has the height of the tree', 'height %d: %r' % (h, x), w.b.where())
        n = fresh('n', 1, 40)
        out = []
        for d in range(h + 1):
            for cls in (0, 1, 2):
                if cls and d == h or cls == 2 and d == h - 1:
                    continue
                z = st.copy()
                i = Lin(cls) if cls < 2 else fresh('i', 2, (1 << (h - d)) - 1)
                nd = shape.make(g.P, ND, d=Lin(d), i=i, h=Opq(('N', d, cls)))
                z.mem[vec.obj] = Seq(n, None, ('fn', lambda it, s, j, nd=nd: nd))
                q = z.mem[o]
                if cls == 1:
                    # nodes (0,1), (1,1), ... come in this order
                    if not z.facts.add_eq(L(q.n) - d) or not z.facts.consistent():
                        continue
                z.event('top', d, cls)
                out.append((z, UNIT))
        return out
    it.hooks[AP + '::new'] = apnew
    it.hooks[ST + '::new'] = stnew
    it.hooks[ST + '::update'] = upd
    it.hooks['std::clone::Clone::clone'] = lambda it, st, a, c, t: deref(it, st, a[0])
    it.loop_hook = loops.summarise
    it.summ_report = w.reps.append
    it.summ_filter = lambda b, bb: any(b.blocks[x]['t'][0] == 'call' and g.P.npath(b.blocks[x]['t'][1].get('path', '')).endswith('Stack::update') for x in b.loops[bb])
    outs = call(g, w, T('gen', MV), [Ptr(('S', ('g',))), Ptr(('S', ('m',))), Lin(h)])
    lab = 'traversal: gen'
    pids = P24 + P17
    where = w.b.where()
    panic_sites(g, pids, it, lab)
    g.check(pids, outs and (len(w.reps) == 1) == (h > 0), '%s: returns' % lab, '', where)
    for s, x in outs:
        ok = s.same(f(g, x, 'height', MV), Lin(h)) and f(g, x, 'root', MV) == (Opq(('leaf', Lin(0))) if h == 0 else Opq(('N', h, 0)))
        g.check(pids, ok, '%s: the root is the node of the top level' % lab, 'height %d: %s' % (h, repr(x)[:200]), where)
        ap = f(g, x, 'apath', MV)
        g.check(P16, s.facts.ent_eq(f(g, ap, 'skn', AP)), '%s: starts at key 0' % lab, repr(ap), where)
        sk = items(s, f(g, x, 'stacks', MV))
        ok = f(g, ap, 'nodes', AP) == VecV(o) and len(sk) == h and all(s.same(f(g, y, 'd', ST), Lin(d)) and f(g, y, 's', ST).obj[1] == ('gs', Lin(d)) for d, y in enumerate(sk))
        g.check(P24, ok, '%s: path and stacks are those filled by the loop, one stack per level' % lab, 'height %d: %s' % (h, repr(sk)[:200]), where)
    for R in w.reps:
        for s in R.backs:
            tops = [e for e in s.events() if e[0] == 'top'][-1:]
            g.check(P24, len(tops) == 1, '%s: one step of the treehash per iteration' % lab, 'height %d' % h, where)
            if not tops:
                continue
            _, d, cls = tops[0]
            g.check(P24, d < h, '%s: stops at the root' % lab, 'height %d' % h, where)
            want = {o: Opq(('N', d, 1))} if cls == 1 else {('S', ('gs', Lin(d))): ('node', d)} if cls == 0 else {}
            for ob in [o] + [('S', ('gs', Lin(j))) for j in range(h)]:
                hd, q = R.head.mem[ob], s.mem[ob]
                if ob not in want:
                    ok = q == hd
                else:
                    ok = appended(hd, q, s)
                    y = q.w[-1][1] if ok and q.w else q.items[-1] if ok else None
                    if ok and want[ob] == ('node', d):
                        ok = isinstance(y, Agg) and s.same(f(g, y, 'd', ND), Lin(d)) and s.same(f(g, y, 'i', ND), Lin(0)) and f(g, y, 'h', ND) == Opq(('N', d, 0))
                    elif ok:
                        ok = y == want[ob]
                g.check(P24, ok, '%s: node 1 of a level goes to the path, node 0 to the stack of its level, others nowhere' % lab,
                        'height %d, node %d of level %d: %s' % (h, cls, d, repr(q)[:200]), where)


def appended(hd, q, s):
    if q.items is not None and hd.items is not None and not q.w:
        return q.items[:-1] == hd.items and len(q.items) == len(hd.items) + 1
    return s.facts.ent_eq(L(q.n) - hd.n - 1) and q.base == hd.base and len(q.w) == len(hd.w) + 1 and s.facts.ent_eq(q.w[-1][0] - hd.n)


def v_store(g, h):
    """Storing and loading a traversal whose stacks hold 1, 2, 3, 1, ... nodes."""
    w = world(g)
    cnt = [1 + d % 3 for d in range(h)]
    skn = Lin(min(3, (1 << h) - 1))
    calls = {'gen': 0}

    def stacks(name, it, st):
        out = []
        for d in range(h):
            ns = [shape.make(g.P, ND, d=Lin(max(0, d - j)), i=atom('si', (d, j), 0, 1 << 20), h=UNIT if name == 'dummy' else Opq(('stk', d, j))) for j in range(cnt[d])]
            out.append(shape.make(g.P, ST, d=Lin(d), i=atom('ss', (d,), 0, 1 << 20), s=VecV(it.new_obj(st, Seq(Lin(len(ns)), tuple(ns))))))
        return VecV(it.new_obj(st, Seq(Lin(h), tuple(out))))

    def mk(name, it, st, k):
        ap = shape.make(g.P, AP, skn=k, nodes=VecV(it.new_obj(st, Seq(Lin(h), tuple(UNIT if name == 'dummy' else Opq(('ap', d)) for d in range(h))))))
        return shape.make(g.P, MV, height=Lin(h), root=UNIT if name == 'dummy' else Opq(('root',)), apath=ap, stacks=stacks(name, it, st))

    def gen(it, st, a, c, t):
        g.check(P16 + P17, st.same(L(a[2]), Lin(h)), 'traversal: load: replays a tree of the stored height', repr(a[2]), '')
        return shape.make(g.P, MV, height=Lin(h), root=UNIT, apath=shape.make(g.P, AP, skn=Lin(0), nodes=VecV(it.new_obj(st, Seq(Lin(0), ())))), stacks=VecV(it.new_obj(st, Seq(Lin(0), ()))))

    def nxt(it, st, a, c, t):
        x = it.read_path(st, a[0])
        k = f(g, f(g, x, 'apath', MV), 'skn', AP)
        it.write_path(st, a[0], mk('dummy', it, st, st.canon(k + 1)))
        return True
    st = w.st
    x = mk('tree', w.it, st, skn)
    o = ('S', ('mt',))
    st.mem[o] = x
    es = deep(st, x)
    lab = 'traversal: store'
    r = call(g, w, T('store', MV), [Ptr(o)])
    where = w.b.where()
    panic_sites(g, P16 + P17, w.it, lab)
    want = [Opq(('ap', d)) for d in range(h)] + [Opq(('root',))] + [Opq(('stk', d, j)) for d in range(h) for j in range(cnt[d])]
    g.check(P16 + P17, r, '%s: returns' % lab, '', where)
    for z, v in r:
        ok = z.same(v.f[0], Lin(h)) and z.same(v.f[1], skn) and items(z, v.f[2]) == want
        g.check(P16 + P17, ok and deep(z, z.mem[o]) == es, '%s: height, key number, path, root and the stacks in order' % lab, 'height %d: %s' % (h, repr(v)[:200]), where)
    lab = 'traversal: load'
    if h == 0:
        return
    w.it.hooks[T('gen', MV)] = gen
    w.it.hooks[T('next', MV)] = nxt
    for extra in (-1, 0, 1):
        z = st.copy()
        ns = (want + [Opq(('extra',))])[:len(want) + extra]
        vv = VecV(w.it.new_obj(z, Seq(Lin(len(ns)), tuple(ns))))
        r = call(g, w, T('load', MV), [Lin(h), skn, vv], st=z)
        where = w.b.where()
        panic_sites(g, P16 + P17, w.it, lab)
        g.check(P16 + P17, r, '%s: returns' % lab, '', where)
        for y, m in r:
            if extra:
                g.check(P17, m.var == 0, '%s: rejects a wrong number of nodes' % lab, 'height %d: %d nodes' % (h, len(ns)), where)
            else:
                g.check(P17 + P16, isinstance(m, Agg) and m.var == 1 and deep(y, m.f[0]) == es, '%s: puts every stored node back in its place' % lab, 'height %d: %s' % (h, repr(m)[:200]), where)


def v_load_beyond(g, h):
    """Key numbers beyond the number of leaves."""
    w = world(g)
    for k in (Lin((1 << h) + 1), Lin((1 << h) + 2)) if h <= 3 else (fresh('k', (1 << h) + 1, 1 << 40),):
        z = w.st.copy()
        vv = vec(w, n=fresh('n', 0, 1 << 20), name=('ld', 'x'), st=z)
        r = call(g, w, T('load', MV), [Lin(h), k, vv], st=z)
        for y, m in r:
            g.check(P16, m.var == 0, 'traversal: load rejects key numbers beyond the number of leaves', 'height %d' % h, w.b.where())


# ------------------------------------------------------------------ folding a path
def fold(g, n):
    for name in ('fold_mut', 'fold'):
        def one(name=name):
            w = world(g)
            w.it.hooks['std::clone::Clone::clone'] = lambda it, st, a, c, t: deref(it, st, a[0])
            w.it.loop_hook = None
            skn = fresh('skn', 0, (1 << n) - 1 if name == 'fold' else 1 << 30)
            ap = shape.make(g.P, AP, skn=skn, nodes=vec(w, [Opq(('ap', d)) for d in range(n)], name='apn'))
            hp = w.ref(Opq(('leaf',)))
            outs = call(g, w, AP + '::' + name, [w.ref(ap), Ptr(('S', ('m',))), hp])
            lab = 'APath::' + name
            where = w.b.where()
            panic_sites(g, P24, w.it, lab)
            g.check(P24, outs, '%s: returns' % lab, '', where)
            for s0, v in outs:
                for s, e in expected(s0, skn, n):
                    x = s.mem[hp.obj] if name == 'fold_mut' else v
                    g.check(P24, x == e, '%s: even index left, odd index right, halving per level' % lab, 'got %s' % repr(x)[:300], where)
                    if name == 'fold_mut':
                        bad = [z for z in s.copy().assume(f_eq(I.pos_div(skn, 1 << n)), True) if z.facts.consistent() and z.decide(v) is not True] + \
                              [z for z in s.copy().assume(f_eq(I.pos_div(skn, 1 << n)), False) if z.facts.consistent() and z.decide(v) is not False]
                        g.check(P24, not bad, '%s: reports whether the path reached the root' % lab, repr(v), where)
        g.guard(one, 'APath::' + name, P24, ())


def expected(s, skn, n):
    out = []
    todo = [(s, Opq(('leaf',)), 0)]
    while todo:
        z, c, j = todo.pop()
        if j == n:
            out.append((z, c))
            continue
        for val in (0, 1):
            for y in z.copy().assume(f_eq(bit_of(skn, j) - val), True):
                if y.facts.consistent():
                    todo.append((y, Opq(('merge', c, Opq(('ap', j)))) if val == 0 else Opq(('merge', Opq(('ap', j)), c)), j + 1))
    return out


def run(g):
    if g.wants('C16', 'C17', 'C24', 'C30'):
        for h in range(21):
            c_simple(g, h)
            g.guard(lambda h=h: c_load(g, h), 'complete tree: load', P16 + P17, ())
            g.guard(lambda h=h: c_gen(g, h), 'complete tree: gen', P24 + P17, ())
            v_simple(g, h)
            g.guard(lambda h=h: v_next(g, h), 'traversal: next', P16 + P17 + P24, ())
            g.guard(lambda h=h: v_gen(g, h), 'traversal: gen', P24 + P17, ())
            g.guard(lambda h=h: v_store(g, h), 'traversal: store and load', P16 + P17, ())
            g.guard(lambda h=h: v_load_beyond(g, h), 'traversal: load', P16, ())
        for h in range(5 if g.tier == 'quick' else 7):
            g.guard(lambda h=h: history(g, h, MV), 'traversal', P16 + P17 + P24, ())
            g.guard(lambda h=h: history(g, h, MC), 'complete tree', P16 + P17 + P24, ())
    if g.wants('C24', 'C30'):
        for h in range(0, 21, 4):
            g.guard(lambda h=h: c_node(g, h), 'complete tree: node', P24, ())
        g.guard(lambda: update(g), 'traversal: stack update', P24, ())
        for n in range(5):
            fold(g, n)
