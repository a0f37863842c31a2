"""Who reads, writes, constructs and hands out protected fields: queries over the types, impls and MIR of the crate.

Two analyses share the walker:
 * confinement of secret key material (C22): trait impls, visibility, and a flow-insensitive interprocedural taint
   analysis from the secret fields to what exported functions return, write through their arguments or print;
 * encapsulation of invariants (C16, C17, C18, C19): every site that constructs a protected type or writes its fields lies
   in a function whose effect is verified elsewhere, or in a private helper that only such functions reach."""
from .group import Missing

# the fields the types have; a field added to them is taken for secret, but what a function exposes of it is not decided
KNOWN = {'prng::PRNG': {'secret_key'}, 'wots::PrivateKey': {'sk'}, 'mss::mss::PrivateKeyT': {'sk', 'mt'}, 'mss::mss::SK': {'prng', 'nonce'},
         'ntru::PrivateKey': {'sk', 'f'}}
SECRET = {'prng::PRNG': None, 'wots::PrivateKey': None, 'mss::mss::PrivateKeyT': ('mt',), 'mss::mss::SK': ('nonce',),
          'ntru::PrivateKey': None}       # type -> fields that are not secret
CLEAN = ('spongos::Spongos', 'troika::Troika', 'std::fmt::Formatter')
P22 = ('C22',)

# sponge operations mix what they are given; the public key of a generated NTRU pair is decided by C19, and a one-time
# signature reveals chain values by design (decided by C14)
DECIDED = ('ntru::gen', 'wots::PrivateKey::sign', 'wots::sign')

BAD_TRAITS = ('std::fmt::', 'core::fmt::', 'std::hash::Hash', 'core::hash::Hash', 'std::cmp::Partial', 'std::cmp::Eq', 'std::cmp::Ord',
              'core::cmp::', 'std::ops::Deref', 'std::ops::Index', 'core::ops::Deref', 'std::convert::AsRef', 'std::convert::AsMut',
              'std::convert::Into', 'std::convert::TryInto', 'std::borrow::Borrow', 'std::borrow::ToOwned', 'std::string::ToString',
              'std::iter::IntoIterator', 'std::marker::StructuralPartialEq')
WORD = {'std::fmt::': 'printed', 'core::fmt::': 'printed', 'std::hash::Hash': 'hashed'}


class Walk:
    def __init__(self, P):
        self.P = P
        self.T = P.types
        self.bodies = [b for b in P.bodies.values() if b.local]
        self._bor = {}

    def strip(self, t):
        while self.T[t]['k'] in ('ref', 'ptr'):
            t = self.T[t]['to']
        return t

    def path(self, t):
        return self.T[self.strip(t)].get('path', '')

    def steps(self, b, pl):
        """(type, step) for every projection of a place; the type is the one projected."""
        t = b.locals[pl[0]][0]
        out = []
        for e in pl[1:]:
            out.append((t, e))
            if e == '*':
                t = self.T[t].get('to', t)
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci', 'sub'):
                t = self.T[t].get('elem', t)
        return out, t

    def fields(self, b, pl, types):
        """(type path, field name, number of the step) of the projections through a field of one of these types."""
        out = []
        for k, (t, e) in enumerate(self.steps(b, pl)[0]):
            if e != '*' and e[0] == 'f':
                x = self.T[t]
                if x['k'] == 'adt' and x.get('path') in types:
                    out.append((x['path'], x['variants'][0]['f'][e[1]]['n'], k))
        return out

    def borrowish(self, t, d=0):
        """May a value of this type give access to memory of somebody else?"""
        if t in self._bor:
            return self._bor[t]
        x = self.T[t]
        self._bor[t] = False
        if x['k'] in ('ref', 'ptr', 'param', 'dyn'):
            r = True
        elif x['k'] == 'adt':
            if x['path'].startswith(('alloc::', 'std::vec::', 'std::string::', 'std::boxed::')) or x.get('box'):
                r = any(self.borrowish(a, d + 1) for a in x['args']) if d < 6 else False
            elif x['path'].startswith('trits::trits::'):
                r = False
            else:
                r = any(self.borrowish(f['t'], d + 1) for v in x.get('variants', ()) for f in v['f']) if d < 6 else False
        elif x['k'] == 'tuple':
            r = any(self.borrowish(e, d + 1) for e in x['elems'])
        elif x['k'] in ('array', 'slice'):
            r = self.borrowish(x['elem'], d + 1)
        elif x['k'] == 'closure':
            r = True
        else:
            r = False
        self._bor[t] = r
        return r

    def clean(self, t):
        """Numbers of things, verdicts, and objects whose output does not reveal what went in."""
        s = self.strip(t)
        x = self.T[s]
        if x['k'] == 'bool' or x['k'] == 'int' and x.get('bits') == 64 and not x.get('signed') or x['k'] == 'tuple' and not x['elems']:
            return True
        return x.get('path') in CLEAN

    def places(self, b):
        """(place, 'r' | 'w' | 'm', line) of every access in a body."""
        def op(o):
            return [(o['p'], 'r')] if isinstance(o, dict) and 'p' in o else []
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] == '=':
                    yield s[1], 'w', s[3] if len(s) > 3 else b.line
                    rv = s[2]
                    if rv[0] in ('ref',):
                        yield rv[1], 'm' if rv[2] else 'r', s[3]
                    elif rv[0] in ('discr', 'len'):
                        yield rv[1], 'r', s[3]
                    else:
                        for x in rv[1:]:
                            for z in (x if isinstance(x, list) else [x]):
                                for p, m in op(z):
                                    yield p, m, s[3]
            t = blk['t']
            if t[0] == 'call':
                for x in t[2]:
                    for p, m in op(x):
                        yield p, m, t[5]
                yield t[3], 'w', t[5]
            elif t[0] in ('switch', 'assert'):
                for p, m in op(t[1]):
                    yield p, m, b.line


# ------------------------------------------------------------------ secrets
def secret_types(w):
    """The secret types and, transitively, every type of the crate that holds one of them."""
    sec = dict(SECRET)
    return sec


def secret_fields(w, x):
    """Names of the secret fields of a secret type."""
    ex = SECRET[x['path']] or ()
    return [f['n'] for f in x['variants'][0]['f'] if f['n'] not in ex and w.path(f['t']) not in CLEAN
            and w.T[f['t']]['k'] not in ('param',) and not w.clean(f['t'])]


def decided(path):
    return path.startswith('spongos::') or path in DECIDED


class Taint:
    """Flow-insensitive taint of locals; sources are secret fields ('F', type, field) and parameters ('P', i)."""

    def __init__(self, w, fields):
        self.w = w
        self.fields = fields            # type path -> secret field names
        self.sum = {}                   # key -> (sources of the result, {param: sources written into it})
        self.sinks = {}                 # key -> [(line, callee, sources)]
        self.callers = {}
        for b in w.bodies:
            self.sum[b.key] = (frozenset(), {})
        todo = list(w.bodies)
        for b in w.bodies:
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('key') in self.sum:
                    self.callers.setdefault(t[1]['key'], set()).add(b.key)
        inq = {b.key for b in todo}
        n = 0
        while todo and n < 60000:
            b = todo.pop(0)
            inq.discard(b.key)
            n += 1
            r = self.body(b)
            if r != self.sum[b.key]:
                self.sum[b.key] = r
                for k in self.callers.get(b.key, ()):
                    if k not in inq:
                        inq.add(k)
                        todo.append(w.P.bodies[k])

    def src(self, b, pl):
        out = set()
        for t, n, k in self.w.fields(b, pl, self.fields):
            if n in self.fields[t]:
                out.add(('F', t, n))
        return out

    def container(self, t):
        return self.w.path(t) in SECRET

    def body(self, b):
        w = self.w
        n = len(b.locals)
        tn = [set() for _ in range(n)]
        for i in range(1, b.argc + 1):
            if not w.clean(b.locals[i][0]):
                tn[i].add(('P', i))
        link = [set() for _ in range(n)]
        flows = []          # (sources, [locals], dest local)
        calls = []
        inner = {}

        def rd(pl):
            """(constant sources, locals) of reading a place."""
            st, ty = w.steps(b, pl)
            if w.clean(ty):
                return set(), []
            s = self.src(b, pl)
            if s:
                return s, []
            if w.fields(b, pl, SECRET):
                return set(), []        # a field of a secret type that is not secret
            return set(), [pl[0]]

        def dest(pl):
            """The local a write to this place taints, or None when it is confined."""
            st, ty = w.steps(b, pl)
            if w.clean(ty) or w.fields(b, pl, SECRET):
                return None
            if w.clean(b.locals[pl[0]][0]):
                return None
            return pl[0]

        def ops(xs):
            s, ls = set(), []
            for o in xs:
                if isinstance(o, dict) and 'p' in o:
                    a, c = rd(o['p'])
                    s |= a
                    ls += c
            return s, ls
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                d = dest(s[1])
                if rv[0] == 'ref':
                    a, c = rd(rv[1])
                    if d is not None:
                        flows.append((a, c, d))
                        for x in c:
                            link[x].add(d)
                            link[d].add(x)
                    continue
                if rv[0] in ('discr', 'len'):
                    continue
                if rv[0] == 'agg' and rv[1] == 'adt' and w.T[rv[2]].get('path') in SECRET:
                    continue            # sealed in a secret type
                if rv[0] == 'agg':
                    a, c = ops(rv[3])
                elif rv[0] == 'bin':
                    a, c = ops(rv[2:4])
                elif rv[0] in ('un', 'cast'):
                    a, c = ops([rv[2]])
                else:
                    a, c = ops([rv[1]])
                if d is not None:
                    flows.append((a, c, d))
                    if rv[0] in ('use', 'cast', 'agg'):
                        for x in c:
                            if w.borrowish(b.locals[x][0]):
                                link[x].add(d)
                                link[d].add(x)
            t = blk['t']
            if t[0] == 'call':
                calls.append(t)
        sinks = []
        changed = True
        rounds = 0
        while changed and rounds < 200:
            changed = False
            rounds += 1

            def add(d, s):
                nonlocal changed
                if d is None or not s or s <= tn[d] or w.clean(b.locals[d][0]):
                    return
                tn[d] |= s
                changed = True
            for a, c, d in flows:
                s = set(a)
                for x in c:
                    s |= tn[x]
                add(d, s)
            for x in range(n):
                for y in link[x]:
                    add(y, tn[x])
            for t in calls:
                cal = t[1]
                path = w.P.npath(cal.get('rpath') or cal.get('path') or '')
                args = []
                for o in t[2]:
                    if isinstance(o, dict) and 'p' in o:
                        a, c = rd(o['p'])
                        s = set(a)
                        for x in c:
                            s |= tn[x]
                        args.append((s, c))
                    else:
                        args.append((set(), []))
                if 'core::fmt' in path or 'std::fmt' in path or path.startswith('std::io::'):
                    for s, c in args:
                        f = frozenset(x for x in s if x[0] == 'F')
                        if f:
                            sinks.append((t[5], path, f))
                if decided(path):
                    continue
                d = dest(t[3])
                allsrc = set().union(*[s for s, c in args]) if args else set()
                if cal.get('key') in self.sum and not (cal.get('name') == 'clone' and cal.get('trait', '').endswith('Clone')):
                    ret, outs = self.sum[cal['key']]

                    def tr(ss):
                        r = set()
                        for x in ss:
                            if x[0] == 'P':
                                if x[1] - 1 < len(args):
                                    r |= args[x[1] - 1][0]
                            else:
                                r.add(x)
                        return r
                    add(d, tr(ret))
                    for i, ss in outs.items():
                        if i - 1 < len(args):
                            for x in args[i - 1][1]:
                                add(x, tr(ss))
                else:
                    add(d, allsrc)
                    for i, (s, c) in enumerate(args):
                        ty = cal_argty(t, i)
                        if ty is not None and self.mutable(ty):
                            for x in c:
                                add(x, allsrc)
                # results that point into their arguments
                if d is not None and w.borrowish(b.locals[d][0]) and len(t[3]) == 1:
                    for i, (s, c) in enumerate(args):
                        for x in c:
                            if w.borrowish(b.locals[x][0]) and x not in link[d]:
                                link[d].add(x)
                                link[x].add(d)
                                changed = True
        self.sinks[b.key] = sinks
        ret = frozenset(tn[0])
        outs = {}
        for i in range(1, b.argc + 1):
            if self.mutable(b.locals[i][0]):
                s = frozenset(x for x in tn[i] if x != ('P', i))
                if s:
                    outs[i] = s
        return ret, outs

    def mutable(self, t, d=0):
        """May a callee write through a value of this type?"""
        x = self.w.T[t]
        if x['k'] in ('ref', 'ptr'):
            if x.get('mut'):
                return True
            return d < 3 and self.mutable(x['to'], d + 1)
        if x['k'] == 'adt':
            return x['path'].endswith('SliceMutT') or d < 3 and any(self.mutable(a, d + 1) for a in x['args'])
        if x['k'] in ('slice', 'array'):
            return d < 3 and self.mutable(x['elem'], d + 1)
        if x['k'] == 'tuple':
            return d < 3 and any(self.mutable(a, d + 1) for a in x['elems'])
        return False


def cal_argty(t, i):
    return t[6][i] if i < len(t[6]) else None


def added(f):
    return bool(f) and all(x[2] not in KNOWN[x[1]] for x in f)


def secrets(g):
    P = g.P
    w = Walk(P)
    fields = {}
    for path in SECRET:
        a = [x for x in P.adts if x['path'] == path]
        if not a:
            g.undecided(P22, '%s: analysable' % path, 'type not found')
            continue
        x = P.types[a[0]['ty']]
        fields[path] = secret_fields(w, x)
        where = '%s:%d' % (a[0]['file'].split('/repo/')[-1], a[0]['line'])
        g.check(P22, fields[path], '%s: holds secret fields' % path, '', where)
        for v in x['variants']:
            for f in v['f']:
                if f['n'] in fields[path]:
                    g.check(P22, f.get('pub') != 'Public', '%s: the secret field %s is not public' % (path, f['n']), 'visibility %s' % f.get('pub'), where)
        impls = [i for i in P.impls if P.types[i['self']].get('path') == path or w.path(i['self']) == path]
        n = 0
        for i in impls:
            if not i.get('trait'):
                continue
            n += 1
            g.check(P22, not i['trait'].startswith(BAD_TRAITS), '%s: not exposed through a standard trait' % path,
                    'implements %s' % i['trait'], '%s' % where)
        g.sites += n
    t = Taint(w, fields)
    # reads of secret fields stay in the module of the type
    for b in w.bodies:
        for pl, m, line in w.places(b):
            for ty, n, k in w.fields(b, pl, fields):
                if n not in fields[ty]:
                    continue
                mod = ty.rsplit('::', 1)[0]
                g.sites += 1
                g.check(P22, home(b).startswith(mod + '::') or home(b).startswith('<' + mod + '::') or (' as ' in home(b) and mod + '::' in home(b)),
                        '%s.%s: accessed only in its module' % (ty, n), 'accessed in %s' % b.npath, b.where(line))
        g.fn(b)
        for line, callee, f in t.sinks.get(b.key, ()):
            g.check(P22, False, '%s: a secret is not printed' % b.npath, '%s reaches %s' % (show(f), callee), b.where(line))
    exported = {f['path'] for f in P.fns if f['exported']}
    seen = 0
    for b in w.bodies:
        if b.path not in exported or decided(b.npath):
            continue
        if b.d.get('name') == 'clone':
            continue
        seen += 1
        ret, outs = t.sum[b.key]
        f = [x for x in ret if x[0] == 'F']
        if added(f):
            g.undecided(P22, '%s: returns no secret' % b.npath, 'carries the added field %s' % show(f))
            f = []
        g.check(P22, not f, '%s: returns no secret' % b.npath, 'the result carries %s' % show(f), b.where())
        for i, ss in outs.items():
            f = [x for x in ss if x[0] == 'F']
            if added(f):
                g.undecided(P22, '%s: writes no secret through its arguments' % b.npath, 'carries the added field %s' % show(f))
                f = []
            g.check(P22, not f, '%s: writes no secret through its arguments' % b.npath, 'argument %d receives %s' % (i, show(f)), b.where())
    g.check(P22, seen > 100, 'exported functions found', '%d' % seen, '')


# ------------------------------------------------------------------ encapsulation
MT_TRAIT = 'mss::mt::TraversableMerkleTree'
SEALED = [
    # types, properties, functions whose effect on the fields is decided by the other groups
    (('ntru::PublicKey',), ('C19',), ('ntru::gen', 'ntru::PublicKey::from_trits', 'ntru::PublicKey::from_slice')),
    (('mss::mtcomplete::MT',), ('C16', 'C17'), tuple('<mss::mtcomplete::MT as %s>::%s' % (MT_TRAIT, m) for m in ('gen', 'next', 'load'))),
    (('mss::mttraversal::MT',), ('C16', 'C17'), tuple('<mss::mttraversal::MT as %s>::%s' % (MT_TRAIT, m) for m in ('gen', 'next', 'load'))),
    (('mss::mss::PrivateKeyT', 'mss::mss::SK'), ('C16', 'C17'), ('mss::mss::PrivateKeyT::gen', 'mss::mss::PrivateKeyT::next')),
]


def sealed(g, w):
    P = g.P
    exported = {P.npath(f['path']) for f in P.fns if f['exported']}
    callers = {}
    for b in w.bodies:
        for blk in b.blocks:
            t = blk['t']
            if t[0] == 'call' and isinstance(t[1], dict):
                for k in ('rpath', 'path'):
                    if t[1].get(k):
                        callers.setdefault(P.npath(t[1][k]), set()).add(b.npath)
    for types, pids, ok in SEALED:
        if not g.wants(*pids):
            continue
        sites = {}
        for b in w.bodies:
            if b.d.get('name') in ('clone', 'clone_from'):
                continue   # decided by the analysis of clones
            for pl, m, line in w.places(b):
                if m in ('w', 'm') and w.fields(b, pl, types):
                    sites.setdefault(b.npath, []).append((b, line, 'writes a field'))
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and w.T[s[2][2]].get('path') in types:
                        sites.setdefault(b.npath, []).append((b, s[3], 'constructs it'))
        g.check(pids, sites, '%s: sites that construct or change it found' % types[0], '', '')
        for fn, where in sorted(sites.items()):
            g.sites += len(where)
            bad = chain(fn, ok, callers, exported)
            b, line, what = where[0]
            g.check(pids, bad is None, '%s: constructed and changed only by the operations that keep its invariant' % types[0],
                    '%s %s, reached through %s' % (fn, what, ' <- '.join(bad or ())), b.where(line))


def chain(fn, ok, callers, exported, seen=()):
    """A call path from an exported function to fn that avoids the functions in ok."""
    base = fn.split('::{closure')[0]
    if base in ok:
        return None
    if base in exported:
        return [fn]
    for c in sorted(callers.get(fn, set()) | ({base} if base != fn else set()) | (callers.get(base, set()) if base != fn else set())):
        if c not in seen and c != fn:
            r = chain(c, ok, callers, exported, seen + (fn,))
            if r is not None:
                return [fn] + r
    return None


def home(b):
    return b.npath


def show(f):
    return ', '.join(sorted('%s.%s' % (x[1], x[2]) for x in f))


def run(g):
    if g.wants('C22'):
        g.guard(secrets, 'secret key material', P22)
    if g.wants('C16', 'C17', 'C19'):
        g.guard(lambda: sealed(g, Walk(g.P)), 'encapsulation', ('C16', 'C17', 'C19'), ())
