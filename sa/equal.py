"""Equality and hashing of the small value types: identifiers, public keys, integer and tryte fields."""
from .lin import Lin, fresh, ATOMS
from .vals import *
from . import interp as I
from . import shape
from .group import Missing
from .models import eq_content
from .slices import Run, judge, TT, BIG

PIDS = ('C25',)
TYPES = ['app::core::AppInst', 'app::core::MsgId', 'mss::mss::PublicKey', 'pb3::typ::trytes::Trytes', 'pb3::typ::size::Size',
         'pb3::typ::trint::Trint3', 'pb3::typ::trint::Trint6', 'pb3::typ::trint::Trint9', 'pb3::typ::trint::Trint18']

SIZES = {'app::core::AppInst': 243, 'app::core::MsgId': 81, 'mss::mss::PublicKey': 243}


def int_range(t):
    bits = t.get('bits') or 64
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if t.get('signed') else (0, (1 << bits) - 1)


def ftypes(P, path):
    for t in P.types:
        if t.get('k') == 'adt' and t.get('path') == path and t.get('variants'):
            return [P.types[f['t']] for f in t['variants'][0]['f']]
    raise Missing('type ' + path)


def make(r, P, path, side, conds):
    """An arbitrary value of the type; what makes it up goes to conds."""
    f = []
    names = shape.fields(P, path)
    more = shape.extra(P, path, names)
    for i, t in enumerate(ftypes(P, path)):
        if t['k'] == 'adt' and P.npath(t['path']) == TT:
            n = Lin(SIZES[path]) if path in SIZES else fresh('n%s%d' % (side, i), 0, BIG)
            c = ((n, 'src', (side, i), Lin(0)),)
            f.append(r.it.mk_trits(r.st, n, c))
            conds.append(('trits', n, c, names[i] in more))
        elif t['k'] == 'int':
            lo, hi = int_range(t)
            x = fresh('v%s%d' % (side, i), lo, hi)
            f.append(x)
            conds.append(('int', x, None, names[i] in more))
        else:
            raise I.Unsupported('field of type %s in %s' % (t.get('path') or t['k'], path))
    return Agg(path, None, f)


def one(g, path, meth):
    ca, cb = [], []
    full = '<%s as std::cmp::PartialEq>::%s' % (path, meth)
    r = Run(g, full, lambda r: [r.ref(make(r, g.P, path, 'a', ca)), r.ref(make(r, g.P, path, 'b', cb))])
    pos = meth == 'eq'
    g.check(PIDS, r.outs, '%s: returns' % full, '', r.b.where())
    judge(g, r, full, True, PIDS)

    def walk(s, v, parts):
        """Decide the parts one after the other; all equal exactly when the result says so."""
        if not parts:
            g.check(PIDS, s.decide(v) is pos, '%s: equal when every part is' % full, repr(v)[:200], r.b.where())
            return
        a, b = parts[0]
        tests = [f_eq(a[1] - b[1])] if a[0] == 'int' else [f_eq(a[1] - b[1]), None]

        def test(s, k):
            if k == len(tests):
                return walk(s, v, parts[1:])
            f = tests[k] if tests[k] is not None else eq_content(r.it, s, a[2], b[2])
            for e in (True, False):
                for z in s.copy().assume(f, e):
                    if not z.facts.consistent():
                        continue
                    if e:
                        test(z, k + 1)
                    elif not a[3]:
                        g.check(PIDS, z.decide(v) is (not pos), '%s: different when a part is' % full, repr(v)[:200], r.b.where())
                    elif z.decide(v) is not (not pos):
                        g.undecided(PIDS, '%s: added fields' % full, 'whether they are part of the value')
        test(s, 0)
    for s, v in r.outs:
        walk(s, v, list(zip(ca, cb)))


def hashing(g):
    """What goes into a hash is determined by the size and the trits."""
    seen = []

    def w(it, st, args, callee, dt):
        st.event('hash', args[1] if callee.get('name') != 'hash_slice' else args[0])
        return UNIT
    H = {'std::hash::Hasher::' + m: w for m in ('write_usize', 'write_length_prefix', 'write_u8', 'write', 'write_i8', 'write_u32', 'write_u64', 'write_i32')}
    H['core::hash::impls::<impl std::hash::Hash for u8>::hash_slice'] = w
    H['std::hash::Hash::hash_slice'] = w
    H['<std::vec::Vec as std::hash::Hash>::hash'] = lambda it, st, args, callee, dt: (st.event('hash', it.read_path(st, args[0])), UNIT)[1]

    def run1(path, mk):
        def setup(r):
            n = r.n = fresh('n', 0, BIG)
            t = r.it.mk_trits(r.st, n, ((n, 'src', ('t',), Lin(0)),))
            r.buf = t.f[1].obj
            return [r.ref(mk(t)), r.ref(Opq(('hasher',)))]
        key = next((k for k, b in g.P.bodies.items() if b.npath == path and 'TW' not in k), None)
        if key is None:
            raise Missing(path)
        r = Run(g, key, setup, hooks=H)
        g.check(PIDS, r.outs, '%s: returns' % path, '', r.b.where())
        for s, v in r.outs:
            ev = [e[1] for e in s.events() if e[0] == 'hash']
            for e in ev:
                if isinstance(e, Lin):
                    e = s.canon(e)
                    ok = all(i == r.n.t[0][0] or ATOMS[i].kind == 'src' for i, k in e.t)
                elif isinstance(e, Ptr):
                    m = e.meta if isinstance(e.meta, Lin) else None
                    ok = e.obj == r.buf and m is not None and s.facts.ent_ge(e.off()) and s.facts.ent_ge(r.n - e.off() - m)
                elif isinstance(e, VecV):
                    ok = e.obj == r.buf
                else:
                    raise I.Unsupported('hash of %r' % (e,))
                g.check(PIDS, ok, '%s: hashes only the size and the trits' % path, repr(e)[:200], r.b.where())
            seen.append(len(ev))
    g.guard(lambda: run1('<%s as std::hash::Hash>::hash' % TT, lambda t: t), 'hash of a container', PIDS, ())
    g.guard(lambda: run1('<app::core::MsgId as std::hash::Hash>::hash', lambda t: shape.make(g.P, 'app::core::MsgId', id=t)), 'hash of a message identifier', PIDS, ())


TREES = ['mss::mt::APath', 'mss::mtcomplete::MT', 'mss::mttraversal::Node', 'mss::mttraversal::Stack', 'mss::mttraversal::MT']


def tree(g, path, b):
    """Equality of the tree types: equal exactly when every field is (fields other than integers uninterpreted)."""
    P = g.P
    names = shape.fields(P, path)
    more = shape.extra(P, path, names)
    tys = next(t for t in P.types if t.get('k') == 'adt' and t.get('path') == path and t.get('variants'))['variants'][0]['f']
    parts = []

    def cmp(it, st, args, callee, dt):
        a, c = (st_val(it, st, x) for x in args[:2])
        if not (isinstance(a, Opq) and isinstance(c, Opq)):
            return None
        f = ('op', ('fieldeq', tuple(sorted((a.key, c.key), key=repr)))) if a != c else True
        return f_not(f) if callee['path'].endswith('::ne') else f

    def st_val(it, st, x):
        while isinstance(x, Ptr):
            x = it.read_path(st, x)
        return x
    H = {}
    for n in ('eq', 'ne'):
        H['std::cmp::PartialEq::' + n] = cmp
        for q in ('std::vec::Vec', 'mss::mt::APath', 'H', '[H]', '&A', '[T]'):
            H['<%s as std::cmp::PartialEq>::%s' % (q, n)] = cmp
    H['std::vec::partial_eq::<impl std::cmp::PartialEq for std::vec::Vec>::eq'] = cmp
    H['std::vec::partial_eq::<impl std::cmp::PartialEq for std::vec::Vec>::ne'] = cmp

    def setup(r):
        vs = []
        for side in 'ab':
            f = []
            for nm, t in zip(names, tys):
                t = P.types[t['t']]
                if t['k'] == 'int':
                    lo, hi = int_range(t)
                    f.append(fresh('%s_%s' % (nm, side), lo, hi))
                else:
                    f.append(Opq(('field', side, nm)))
            vs.append(f)
        parts.extend(zip(*vs))
        return [r.ref(Agg(path, None, f)) for f in vs]
    r = Run(g, b, setup, hooks=H)
    lab = 'equality of %s' % path
    g.check(PIDS, r.outs, lab + ': returns', '', r.b.where())
    judge(g, r, lab, True, PIDS)
    fs = [f_eq(x - y) if not isinstance(x, Opq) else ('op', ('fieldeq', tuple(sorted((x.key, y.key), key=repr)))) for x, y in parts]
    for s, v in r.outs:
        def walk(s, k):
            if k == len(fs):
                g.check(PIDS, s.decide(v) is True, lab + ': equal when every field is', repr(v)[:200], r.b.where())
                return
            for e in (True, False):
                for z in s.copy().assume(fs[k], e):
                    if z.facts.consistent():
                        if e:
                            walk(z, k + 1)
                        elif names[k] not in more:
                            g.check(PIDS, z.decide(v) is False, lab + ': different when field %s is' % names[k], repr(v)[:200], r.b.where())
                        elif z.decide(v) is not False:
                            g.undecided(PIDS, lab + ': field %s' % names[k], 'added, and not compared: whether it is part of the value')
        walk(s, 0)


def run(g):
    if not g.wants('C25'):
        return
    impls = {}
    for b in g.P.bodies.values():
        if b.local and b.npath.endswith(' as std::cmp::PartialEq>::eq') or b.local and b.npath.endswith(' as std::cmp::PartialEq>::ne'):
            impls.setdefault(b.npath[1:].split(' as ')[0], set()).add(b.npath.split('::')[-1])
    for t in TYPES:
        if t not in impls:
            g.undecided(PIDS, '%s: equality' % t, 'no implementation found')
            continue
        for m in sorted(impls[t]):
            g.guard(lambda: one(g, t, m), '%s of %s' % (m, t), PIDS, ())
    hashing(g)
    for t in TREES:
        k = next((k for k, b in g.P.bodies.items() if b.local and b.npath == '<%s as std::cmp::PartialEq>::eq' % t), None)
        if k is None:
            g.undecided(PIDS, 'equality of %s' % t, 'no implementation found')
            continue
        g.guard(lambda t=t, k=k: tree(g, t, k), 'equality of ' + t, PIDS, ())
