"""Clones: every field of a clone is that field's value, and nothing is shared with the original."""
from .lin import Lin, fresh
from .vals import *
from . import interp as I
from . import shape
from .group import Missing
from .models import eq_content
from .slices import Run, TT, BIG
from .equal import int_range

PIDS = ('C35',)
# what else rests on these clones
ALSO = {'ntru::PublicKey': ('C19',), 'mss::mss::PrivateKeyT': ('C16', 'C17'), 'mss::mss::SK': ('C16', 'C17'),
        'mss::mtcomplete::MT': ('C16', 'C17'), 'mss::mttraversal::MT': ('C16', 'C17'), 'spongos::Spongos': ('C06',), 'spongos::Outer': ('C06',)}
# slices are views: a copy of one is the same view
VIEWS = ('trits::slice::TritSliceT', 'trits::slice::TritSliceMutT', 'trits::slice::SliceRange')
SHARED = ('std::rc::Rc', 'std::rc::Weak', 'std::sync::Arc', 'std::sync::Weak')      # cells and locks own their content


FROZEN = ('std::vec::Vec', 'std::boxed::Box', 'std::option::Option', 'std::marker::PhantomData', 'std::rc::Rc', 'std::sync::Arc', 'std::string::String',
          'std::alloc::Global')


def adt(P, path):
    """The type, with its own parameters if it has any."""
    best = None
    for t in P.types:
        if t.get('k') == 'adt' and P.npath(t.get('path') or '') == path and t.get('variants'):
            gen = any(P.types[a].get('k') == 'param' for a in t.get('args') or ())
            if best is None or gen:
                best = t
            if gen:
                break
    if best is None:
        raise Missing('type ' + path)
    return best


def frozen(P, t, seen=None):
    """A value of the type cannot change while it is shared."""
    seen = set() if seen is None else seen
    if id(t) in seen:
        return True
    seen.add(id(t))
    k = t.get('k')
    if k in ('int', 'bool', 'float', 'char', 'str', 'never', 'param'):
        return True
    if k == 'ref':
        return not t.get('mut') and t.get('to') is not None and frozen(P, P.types[t['to']], seen)
    if k in ('array', 'slice'):
        return frozen(P, P.types[t['elem']], seen)
    if k == 'tuple':
        return all(frozen(P, P.types[x if isinstance(x, int) else x['t']], seen) for x in t.get('elems') or t.get('f') or ())
    if k == 'adt':
        path = P.npath(t['path'])
        if t.get('local'):
            return all(frozen(P, P.types[f['t']], seen) for v in t.get('variants') or () for f in v['f'])
        return path in FROZEN and all(frozen(P, P.types[a], seen) for a in t.get('args') or () if P.types[a].get('k') != 'lifetime')
    return False


def forced(P):
    """The program changes things through shared pointers somewhere."""
    if '_forced' not in P.__dict__:
        def casts(x):
            if isinstance(x, list):
                if len(x) > 5 and x[0] == 'cast' and x[1] in ('PtrToPtr', 'Transmute'):
                    b, a = P.types[x[3]], P.types[x[5]]
                    if a.get('k') in ('ptr', 'ref') and not a.get('mut') and b.get('k') in ('ptr', 'ref') and b.get('mut'):
                        return True
                return any(casts(y) for y in x)
            return False
        P._forced = any(b.local and any(casts(bl.get('s', [])) or bl['t'][0] == 'call' and (P.npath(bl['t'][1].get('path') or '').split('::')[-1] in ('get_mut_unchecked', 'cast_mut'))
                                        for bl in b.blocks) for b in P.bodies.values())
    return P._forced


def shares(P, t, seen, trail):
    """What a value of the type may share with others, as (what, where) pairs."""
    if id(t) in seen:
        return
    seen.add(id(t))
    k = t.get('k')
    if k in ('ref', 'ptr') or k == 'adt' and P.npath(t['path']) in SHARED:
        # what cannot change may be shared
        if not frozen(P, t) or forced(P):
            yield t['s'], trail
    elif k in ('array', 'slice'):
        yield from shares(P, P.types[t['elem']], seen, trail)
    elif k == 'tuple':
        for x in t.get('elems') or t.get('f') or ():
            yield from shares(P, P.types[x if isinstance(x, int) else x['t']], seen, trail)
    elif k == 'adt':
        path = P.npath(t['path'])
        if t.get('local'):
            for v in t.get('variants') or ():
                for f in v['f']:
                    yield from shares(P, P.types[f['t']], seen, trail + '.' + f['n'])
        else:
            for a in t.get('args') or ():
                yield from shares(P, P.types[a], seen, trail)


def build(r, t, names, k=None):
    """An arbitrary value of the structure t; with k, its sequences have k elements and its integers are k."""
    P = r.g.P
    out = []
    for f in t['variants'][0]['f']:
        ft = P.types[f['t']]
        if ft['k'] == 'int' and k is not None:
            out.append(Lin(k))
        elif k is not None and ft['k'] == 'adt' and P.npath(ft['path']) == 'std::vec::Vec':
            o = ('H', (f['n'] + names,))
            r.st.mem[o] = Seq(Lin(k), tuple(Opq(('item', f['n'] + names, i)) for i in range(k)))
            out.append(VecV(o))
        elif ft['k'] == 'int':
            lo, hi = int_range(ft)
            out.append(fresh('f_' + f['n'] + names, lo, hi))
        elif ft['k'] == 'bool':
            out.append(('op', ('field', f['n'] + names)))
        elif ft['k'] == 'adt' and P.npath(ft['path']) == TT:
            n = fresh('n_' + f['n'] + names, 0, BIG)
            out.append(r.it.mk_trits(r.st, n, ((n, 'src', (f['n'] + names,), Lin(0)),)))
        elif ft['k'] == 'adt' and P.npath(ft['path']) == 'std::vec::Vec' and t.get('path') == TT:
            n = out[0]
            o = ('H', (f['n'] + names,))
            r.st.mem[o] = Region(n, ((n, 'src', (f['n'] + names,), Lin(0)),))
            out.append(VecV(o))
        elif ft['k'] == 'adt' and P.npath(ft['path']) == 'std::marker::PhantomData':
            out.append(UNIT)
        elif ft['k'] == 'adt' and ft.get('local') and ft.get('kind') == 'struct' and k is None:
            out.append(build(r, ft, '.' + f['n'] + names))
        else:
            out.append(Opq(('field', f['n'] + names)))
    return Agg(P.npath(t['path']), None, out)


def same(r, s, want, got, cloned):
    """None when got is the value want (cloned: its own storage), else what is wrong."""
    it = r.it
    if isinstance(want, Lin):
        return None if isinstance(got, Lin) and s.decide(f_eq(want - got)) is True else 'is %r' % (got,)
    if isinstance(want, Opq):
        if got == want or got == Opq(('clone', want)):
            return None
        return 'is %r' % (got,)
    if isinstance(want, VecV):
        if not isinstance(got, VecV):
            return 'is %r' % (got,)
        if cloned and got.obj == want.obj:
            return 'is the buffer of the original'
        a, b = s.mem.get(want.obj), s.mem.get(got.obj)
        if isinstance(a, Seq):
            if not isinstance(b, Seq) or b.items is None or a.items is None:
                raise I.Unsupported('sequence %r' % (b,))
            if len(a.items) != len(b.items):
                return 'has %d elements instead of %d' % (len(b.items), len(a.items))
            for x, y in zip(a.items, b.items):
                w = same(r, s, x, y, cloned)
                if w:
                    return 'has an element which ' + w
            return None
        if not (isinstance(a, Region) and isinstance(b, Region)):
            raise I.Unsupported('buffer %r' % (b,))
        na = a.n
        if s.decide(f_eq(na - b.n)) is not True:
            return 'has length %r' % (b.n,)
        return None if s.decide(eq_content(it, s, a.c, b.c)) is True else 'has other contents'
    if isinstance(want, Agg):
        if not isinstance(got, Agg) or len(got.f) != len(want.f):
            return 'is %r' % (got,)
        for i, (x, y) in enumerate(zip(want.f, got.f)):
            w = same(r, s, x, y, cloned)
            if w:
                return 'has field %d which %s' % (i, w)
        return None
    return None if want == got else 'is %r' % (got,)


def hooks(owned=()):
    def val(it, st, x):
        while isinstance(x, Ptr):
            x = it.read_path(st, x)
        return x

    def clone(it, st, args, callee, dt):
        v = val(it, st, args[0])
        if isinstance(v, Opq):
            return Opq(('clone', v))
        if isinstance(v, (Lin, tuple, bool)) or v is UNIT:
            return v
        if isinstance(v, Agg) and v.tag in owned:
            return it.clone_val(st, v)
        return None

    def clone_from(it, st, args, callee, dt):
        v = val(it, st, args[1])
        if isinstance(v, Opq):
            it.write_path(st, args[0], Opq(('clone', v)))
            return UNIT
        return None
    return clone, clone_from


def one(g, path, meth, b, owned, k=None):
    P = g.P
    pids = PIDS + ALSO.get(path, ())
    t = adt(P, path)
    lab = '%s of %s' % (meth, path)
    struct = t.get('kind') == 'struct'
    box = []

    def setup(r):
        paths = {q for q in _clone_paths(P)}
        for q in paths:
            r.it.hooks[q] = hooks(owned)[1 if q.endswith('_from') else 0]
        mk = (lambda n: build(r, t, n, k)) if struct else (lambda n: Opq(('value', n)))
        src = mk('')
        box.append(src)
        p = r.ref(src)
        box.append(p)
        if meth == 'clone':
            return [p]
        q = r.ref(mk("'"))
        box.append(q)
        return [q, p]
    r = Run(g, b, setup)
    g.check(pids, r.outs, lab + ': returns', '', r.b.where())
    # which sizes a field can have is an invariant of the type, not known here
    for p in r.it.panics:
        g.undecided(pids, lab + ': does not panic', '%s at %s' % (p.what, p.where))
    src, p = box[:2]
    for s, v in r.outs:
        if meth != 'clone':
            v = r.it.read_path(s, box[2])
        if not struct:
            g.check(pids, v in (src, Opq(('clone', src))), lab + ': the same value', repr(v)[:200], r.b.where())
            continue
        if not isinstance(v, Agg) or len(v.f) != len(src.f):
            raise I.Unsupported('clone is %r' % (v,))
        more = shape.extra(P, path, [f['n'] for f in t['variants'][0]['f']])
        for f, x, y in zip(t['variants'][0]['f'], src.f, v.f):
            w = same(r, s, x, y, True)
            if w and f['n'] in more:
                g.undecided(pids, '%s: field %s' % (lab, f['n']), 'added, and not that of the original: whether it is part of the value')
                continue
            g.check(pids, w is None, '%s: field %s is that of the original' % (lab, f['n']), (w or '')[:300], r.b.where())
        now = r.it.read_path(s, p)
        w = same(r, s, src, now, False)
        g.check(pids, w is None, lab + ': the original is unchanged', (w or '')[:300], r.b.where())


def _clone_paths(P):
    out = {'std::clone::Clone::clone', 'std::clone::Clone::clone_from'}
    for b in P.bodies.values():
        if not b.local or '::clone' not in b.npath:
            continue
        for bl in b.blocks:
            if bl['t'][0] == 'call':
                c = bl['t'][1]
                for q in (c.get('path'), c.get('rpath')):
                    q = q and P.npath(q)
                    if q and (q.endswith('::clone') or q.endswith('::clone_from')) and 'Clone' in q and 'Vec' not in q:
                        out.add(q)
    return out


def run(g):
    if not g.wants('C35', 'C06', 'C16', 'C17', 'C19'):
        return
    P = g.P
    found, keys = {}, {}
    for k, b in P.bodies.items():
        for m in ('clone', 'clone_from'):
            end = ' as std::clone::Clone>::' + m
            if b.local and b.npath.endswith(end) and b.npath.startswith('<'):
                path = b.npath[1:-len(end)]
                if path not in VIEWS and not path.startswith('&'):
                    cur = found.get((path, m))
                    if cur is None or b.d.get('generic') and not cur.d.get('generic'):
                        found[path, m] = b
                        keys[path, m] = k
    g.check(PIDS, True, 'types with a clone: %d' % len({p for p, _ in found}))
    owned = {p for p, _ in found}
    for path, m in sorted(found):
        what = '%s of %s' % (m, path)
        n = len(g.obl)
        g.guard(lambda: one(g, path, m, keys[path, m], owned), what, PIDS + ALSO.get(path, ()), ())
        if any(o.ok is None for o in g.obl[n:]) and not any(o.ok is False for o in g.obl[n:]) and path != TT:
            # not for all sizes; for small ones
            first = g.obl[n:]
            for k in range(1, 4):
                m1 = len(g.obl)
                g.guard(lambda: one(g, path, m, keys[path, m], owned, k), what, PIDS + ALSO.get(path, ()), ())
                if any(o.ok is None and 'panic' not in o.key for o in g.obl[m1:]):
                    break
            if any(o.ok is False for o in g.obl[n:]):
                g.obl[n:] = [o for o in g.obl[n:] if o.ok is not None]
    for path in sorted({p for p, _ in found}):
        def walk(path=path):
            t = adt(P, path)
            bad = list(shares(P, t, set(), path.split('::')[-1]))
            g.check(PIDS, not bad, '%s: owns all its parts' % path, ', '.join('%s: %s' % (w, s) for s, w in bad)[:300], path)
        g.guard(walk, 'parts of ' + path, PIDS, ())
