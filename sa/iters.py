"""Iterator adapters and consumers of the standard library as values: an iterator is (kind, parts); `has` is the formula
"there is a next item", `take` removes one item."""
from .lin import Lin, atom
from .vals import *
from . import interp as I

RANGE = 'std::ops::Range'
RINC = 'std::ops::RangeInclusive'
REV = 'std::iter::Rev'
BASE = ('siter', 'viter', RANGE, REV, RINC, 'chars')
ADAPT = ('it_zip', 'it_enum', 'it_map', 'it_copied', 'it_chain', 'it_take')
CONS = ('for_each', 'fold', 'all', 'any', 'count', 'position', 'collect', 'find', 'try_for_each')
LIMIT = 800


def is_iter(v):
    return isinstance(v, Agg) and (v.tag in BASE or v.tag in ADAPT)


def has(v):
    t = v.tag
    if t in ('siter', 'viter', 'chars'):
        return f_ge(v.f[2] - v.f[1] - 1)
    if t == RANGE:
        return f_ge(v.f[1] - v.f[0] - 1)
    if t == RINC:
        return f_and(f_not(v.f[2]), f_ge(v.f[1] - v.f[0]))
    if t in (REV, 'it_enum', 'it_map', 'it_copied'):
        return has(v.f[0])
    if t == 'it_zip':
        return f_and(has(v.f[0]), has(v.f[1]))
    if t == 'it_chain':
        return f_or(has(v.f[0]), has(v.f[1]))
    if t == 'it_take':
        return f_and(f_ge(v.f[1] - 1), has(v.f[0]))
    raise I.Unsupported('iterator %s' % (t,))


def take(it, st, v, back=False):
    """Remove the next item of a non-empty iterator: list of (state, item, iterator)."""
    t = v.tag
    if t == 'siter':
        base, i, n = v.f
        return [(st, base.add(n - 1), Agg(t, None, (base, i, n - 1)))] if back else [(st, base.add(i), Agg(t, None, (base, i + 1, n)))]
    if t == 'chars':
        k, i, n = v.f
        j = n - 1 if back else i
        return [(st, atom('chr', (k, st.canon(j)), 0, 0x10ffff), Agg(t, None, (k, i, n - 1) if back else (k, i + 1, n)))]
    if t == 'viter':
        vec, i, n = v.f
        x = it.elem(st, it.load_obj(st, vec.obj), n - 1 if back else i)
        return [(st, x, Agg(t, None, (vec, i, n - 1) if back else (vec, i + 1, n)))]
    if t == RANGE:
        a, b = v.f[0], v.f[1]
        return [(st, b - 1, Agg(t, v.var, (a, b - 1) + v.f[2:]))] if back else [(st, a, Agg(t, v.var, (a + 1, b) + v.f[2:]))]
    if t == RINC and not back:
        a, b, ex = v.f
        out = []
        for more in (True, False):
            for s in st.copy().assume(f_ge(b - a - 1), more):
                if s.facts.consistent():
                    out.append((s, a, Agg(t, v.var, (a + 1, b, False) if more else (a, b, True))))
        return out
    if t == REV:
        return [(s, x, Agg(REV, v.var, (w,))) for s, x, w in take(it, st, v.f[0], not back)]
    if t == 'it_copied':
        return [(s, it.read_path(s, x) if isinstance(x, Ptr) else x, Agg(t, None, (w,))) for s, x, w in take(it, st, v.f[0], back)]
    if t == 'it_enum' and not back:
        return [(s, Agg('tuple', None, (v.f[1], x)), Agg(t, None, (w, v.f[1] + 1))) for s, x, w in take(it, st, v.f[0])]
    if t == 'it_map':
        out = []
        for s, x, w in take(it, st, v.f[0], back):
            for s2, y in it.call_value(s, v.f[1], [x]):
                out.append((s2, y, Agg(t, None, (w, v.f[1]))))
        return out
    if t == 'it_zip' and not back:
        return [(s2, Agg('tuple', None, (x, y)), Agg(t, None, (w, z))) for s, x, w in take(it, st, v.f[0]) for s2, y, z in take(it, s, v.f[1])]
    if t == 'it_take' and not back:
        return [(s, x, Agg(t, None, (w, v.f[1] - 1))) for s, x, w in take(it, st, v.f[0])]
    if t == 'it_chain' and not back:
        out = []
        for first in (True, False):
            for s in st.copy().assume(has(v.f[0]), first):
                if s.facts.consistent():
                    out += [(s2, x, Agg(t, None, (w, v.f[1]) if first else (v.f[0], w))) for s2, x, w in take(it, s, v.f[0] if first else v.f[1])]
        return out
    raise I.Unsupported('iterator %s' % (t,))


def split(it, st, f):
    """Run f on a partition of the state on which it does not need to split; f gets a copy."""
    out = []
    work = [st]
    while work:
        s = work.pop()
        try:
            out += f(s.copy())
        except I.Split as e:
            work += [x for k in (True, False) for x in s.copy().assume(e.f, k) if x.facts.consistent()]
    return out


def drive(it, st, v, acc, step):
    """Consume iterator v: step(state, acc, item) -> list of (state, acc, go on?); result list of (state, acc, rest)."""
    outs = []
    work = [(st, acc, v, 0)]
    while work:
        s, acc, v, n = work.pop()
        f = has(v)
        d = s.decide(f)
        if n > (LIMIT if d is not None else it.unroll):
            raise I.Unsupported('iterator consumed more than %d items' % n)
        for k in (True, False) if d is None else (d,):
            for s1 in (s.copy().assume(f, k) if d is None else [s]):
                if d is None and not s1.facts.consistent():
                    continue
                if not k:
                    outs.append((s1, acc, v))
                    continue
                for s2, x, w in split(it, s1, lambda z, v=v: take(it, z, v)):
                    for s3, a, go in split(it, s2, lambda z, acc=acc, x=x: step(z, acc, x)):
                        if go:
                            work.append((s3, a, w, n + 1))
                        else:
                            outs.append((s3, a, w))
    return outs


def adapter(it, st, name, args):
    v = args[0]
    if name == 'zip':
        w = args[1]
        if not is_iter(w):
            from . import models
            if isinstance(w, Ptr):
                w = models.m_siter(it, st, [w], None, None)
            elif isinstance(w, VecV):
                w = Agg('viter', None, (w, Lin(0), models.val_len(it, st, w)))
        return Agg('it_zip', None, (v, w)) if is_iter(w) else None
    if name == 'enumerate':
        return Agg('it_enum', None, (v, Lin(0)))
    if name == 'map':
        return Agg('it_map', None, (v, args[1]))
    if name in ('copied', 'cloned'):
        return Agg('it_copied', None, (v,))
    if name == 'chain' and is_iter(args[1]):
        return Agg('it_chain', None, (v, args[1]))
    if name == 'take':
        return Agg('it_take', None, (v, args[1]))
    if name == 'rev':
        return Agg(REV, None, (v,))
    if name == 'into_iter' or name == 'by_ref':
        return v
    if name == 'skip' and v.tag in ('siter', 'viter', RANGE):
        i = 0 if v.tag == RANGE else 1
        a, b = v.f[i], v.f[i + 1]
        a = a + args[1] if st.must(f_ge(b - a - args[1])) else b
        return Agg(v.tag, v.var, (v.f[:i] + (a,) + v.f[i + 1:]))
    return None


def consume(it, st, name, args, dt):
    from . import models
    v = args[0]
    ptr = None
    if isinstance(v, Ptr):
        ptr = v
        v = it.read_path(st, ptr)
    f = args[-1]

    def back(outs, res):
        r = []
        for s, a, w in outs:
            if ptr is not None:
                it.write_path(s, ptr, w)
            r.append((s, res(a)))
        return r
    if name == 'for_each':
        return back(drive(it, st, v, UNIT, lambda s, a, x: [(s2, UNIT, True) for s2, _ in it.call_value(s, f, [x])]), lambda a: a)
    if name == 'fold':
        return back(drive(it, st, v, args[1], lambda s, a, x: [(s2, y, True) for s2, y in it.call_value(s, f, [a, x])]), lambda a: a)
    if name == 'count':
        return back(drive(it, st, v, Lin(0), lambda s, a, x: [(s, a + 1, True)]), lambda a: a)
    if name in ('all', 'any'):
        stop = name == 'any'

        def step(s, a, x):
            out = []
            for s2, y in it.call_value(s, f, [x]):
                for k in (True, False):
                    for z in s2.copy().assume(y, k):
                        if z.facts.consistent():
                            out.append((z, stop if k is stop else not stop, k is not stop))
            return out
        return back(drive(it, st, v, not stop, step), lambda a: a)
    if name == 'position':
        def step(s, a, x):
            out = []
            for s2, y in it.call_value(s, f, [x]):
                for k in (True, False):
                    for z in s2.copy().assume(y, k):
                        if z.facts.consistent():
                            out.append((z, ('hit', a) if k else a + 1, not k))
            return out
        return back(drive(it, st, v, Lin(0), step), lambda a: models.some(a[1]) if isinstance(a, tuple) and a[0] == 'hit' else models.NONE)
    if name == 'collect':
        if not it.types[dt].get('path', '').endswith('Vec'):
            return None
        vec = models.m_vec_new(it, st, [], None, dt)

        def step(s, a, x):
            models.m_push(it, s, [vec, x], None, None)
            return [(s, a, True)]
        return back(drive(it, st, v, vec, step), lambda a: a)
    return None


def call(it, st, name, args, dt):
    """Adapter, consumer or next on a modelled iterator; None when it is not one."""
    from . import models
    v = args[0] if args else None
    if name in ('next', 'next_back') and isinstance(v, Ptr):
        w = it.read_path(st, v)
        if not is_iter(w) or w.tag not in ADAPT + (REV, 'chars'):
            return None
        if not st.must(has(w)):
            return models.NONE
        out = []
        for s, x, w2 in split(it, st, lambda z: take(it, z, w, name == 'next_back')):
            it.write_path(s, v, w2)
            out.append((s, models.some(x)))
        return out
    if name in CONS:
        w = it.read_path(st, v) if isinstance(v, Ptr) else v
        return consume(it, st, name, args, dt) if is_iter(w) else None
    return adapter(it, st, name, args) if is_iter(v) else None
