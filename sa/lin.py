"""Affine expressions over interned atoms and a polyhedral fact store (exact integer arithmetic)."""
from math import gcd

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'defs', 'name')

    def __repr__(self):
        return show_atom(self.id)


def atom(kind, args=(), lo=None, hi=None, defs=None):
    """Interned atom. `defs` is a function id -> list of Lin that are always >= 0."""
    k = (kind, args)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.defs = ()
        ATOMS.append(a)
        _INTERN[k] = a
        if defs:
            a.defs = tuple(defs(Lin.of(a.id)))
    return Lin.of(a.id)


_fresh = [0]


def fresh(name, lo=None, hi=None):
    _fresh[0] += 1
    return atom('v', (name, _fresh[0]), lo, hi)


# Nesting depth of the term being printed (terms share structure: printing them in full could take exponential time).
DEPTH = [0]


def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'v':
        return '%s' % (a.args[0],) + ("'%d" % a.args[1] if len(a.args) > 1 else '')
    if DEPTH[0] > 3:
        return a.kind + '(..)'
    DEPTH[0] += 1
    try:
        return '%s(%s)' % (a.kind, ','.join(_sh(x) for x in a.args))
    finally:
        DEPTH[0] -= 1


def _sh(x):
    if isinstance(x, tuple):
        if DEPTH[0] > 3:
            return '(..)'
        return '(' + ','.join(_sh(y) for y in x) + ')'
    return str(x)


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    @staticmethod
    def of(i, k=1):
        return Lin(0, ((i, k),))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self.h

    def __repr__(self):
        s = []
        for i, k in self.t:
            n = show_atom(i)
            s.append(n if k == 1 else '-' + n if k == -1 else '%d*%s' % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t) if self.c else o
        d = dict(self.t)
        for i, k in o.t:
            v = d.get(i, 0) + k
            if v:
                d[i] = v
            else:
                d.pop(i, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((i, -k) for i, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, Lin):
            if k.is_const():
                k = k.c
            elif self.is_const():
                return k * self.c
            else:
                return mul_atom(self, k)
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((i, c * k) for i, c in self.t))

    __rmul__ = __mul__

    def atoms(self):
        return [i for i, _ in self.t]


def L(x):
    return x if isinstance(x, Lin) else Lin(int(x))


def static_bounds(l):
    lo = hi = l.c
    for i, k in l.t:
        a = ATOMS[i]
        if k > 0:
            lo = None if lo is None or a.lo is None else lo + k * a.lo
            hi = None if hi is None or a.hi is None else hi + k * a.hi
        else:
            lo = None if lo is None or a.hi is None else lo + k * a.hi
            hi = None if hi is None or a.lo is None else hi + k * a.lo
    return lo, hi


def mul_atom(a, b):
    """Non-linear product of two non-constant expressions: distribute over constants and atoms."""
    r = Lin(a.c * b.c)
    r = r + Lin(0, a.t) * b.c + Lin(0, b.t) * a.c
    for i, k in a.t:
        for j, m in b.t:
            x, y = (i, j) if i <= j else (j, i)
            A, B = ATOMS[x], ATOMS[y]
            lo = hi = None
            if None not in (A.lo, A.hi, B.lo, B.hi):
                c = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
                lo, hi = min(c), max(c)
            elif A.lo is not None and B.lo is not None and A.lo >= 0 and B.lo >= 0:
                lo = A.lo * B.lo

            def defs(p, A=A, B=B):
                o = []
                # (A-lo)(B-lo) >= 0 when both lows are known
                if A.lo is not None and B.lo is not None:
                    o.append(p - Lin.of(A.id) * B.lo - Lin.of(B.id) * A.lo + A.lo * B.lo)
                return o
            r = r + atom('mul', (x, y), lo, hi, defs) * (k * m)
    return r


def div_atom(x, c, signed=False):
    """Truncating division of x by the positive constant c."""
    if c == 1:
        return x
    if x.is_const():
        q = abs(x.c) // c
        return Lin(q if x.c >= 0 else -q)
    if x.c % c == 0 and all(k % c == 0 for _, k in x.t):
        return Lin(x.c // c, tuple((i, k // c) for i, k in x.t))
    lo, hi = static_bounds(x)

    def tr(v):
        return None if v is None else (v // c if v >= 0 else -((-v) // c))
    pos = lo is not None and lo >= 0
    if pos:
        # floor(floor(y/a)/c) = floor(y/(a*c)) for a pure div atom
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
            A = ATOMS[x.t[0][0]]
            if A.kind == 'div' and A.args[2]:
                return div_atom(A.args[0], A.args[1] * c)

    def defs(q):
        if pos:
            return [x - q * c, q * c + (c - 1) - x]
        return [x - q * c + (c - 1), q * c + (c - 1) - x]
    return atom('div', (x, c, pos), tr(lo), tr(hi), defs)


# ------------------------------------------------------------------ polyhedra
class Stats:
    lp = 0
    quick = 0


def _feasible(rows):
    """rows: list of Lin that must be >= 0 (atoms are integers with static bounds given as rows too).
    Returns False when there is no rational solution. Dual simplex with a zero objective, integer rows."""
    Stats.lp += 1
    ids = {}
    shift = {}
    for r in rows:
        for i, _ in r.t:
            if i not in ids:
                ids[i] = None
    cols = 0
    for i in ids:
        a = ATOMS[i]
        if a.lo is not None:
            ids[i] = (cols, None)
            shift[i] = a.lo
            cols += 1
        else:
            ids[i] = (cols, cols + 1)
            shift[i] = 0
            cols += 2
    n = cols
    m = len(rows)
    T = []
    basis = []
    for k, r in enumerate(rows):
        # r.c + sum k_i x_i >= 0  ->  -sum k_i x_i' + s = r.c + sum k_i shift_i
        a = [0] * (n + m + 1)
        b = r.c
        for i, c in r.t:
            p, q = ids[i]
            a[p] -= c
            if q is not None:
                a[q] += c
            b += c * shift[i]
        a[n + k] = 1
        a[-1] = b
        T.append(a)
        basis.append(n + k)
    width = n + m + 1
    it = 0
    while True:
        it += 1
        if it > 4000:
            return True
        # leaving row: b < 0, smallest basic variable (Bland)
        li = -1
        for i in range(m):
            if T[i][-1] < 0 and (li < 0 or basis[i] < basis[li]):
                li = i
        if li < 0:
            return True
        row = T[li]
        j = -1
        for c in range(width - 1):
            if row[c] < 0:
                j = c
                break
        if j < 0:
            return False
        row = [-v for v in row]
        p = row[j]
        T[li] = row
        basis[li] = j
        for k in range(m):
            if k == li:
                continue
            rk = T[k]
            f = rk[j]
            if f:
                nr = [p * u - f * v for u, v in zip(rk, row)]
                g = 0
                for v in nr:
                    if v:
                        g = gcd(g, v)
                        if g == 1:
                            break
                if g > 1:
                    nr = [v // g for v in nr]
                T[k] = nr


def norm_ge(l):
    """Integer-tighten l >= 0."""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(l.c // g, tuple((i, k // g) for i, k in l.t))
    return l


_DEEP = {}


def deep(i):
    """All atoms occurring (at any depth) in the arguments of atom i."""
    r = _DEEP.get(i)
    if r is None:
        r = set()
        stack = [ATOMS[i].args]
        while stack:
            x = stack.pop()
            if isinstance(x, Lin):
                for j, _ in x.t:
                    r.add(j)
                    r |= deep(j)
            elif isinstance(x, tuple):
                stack.extend(x)
        if ATOMS[i].kind == 'mul':
            for j in ATOMS[i].args:
                r.add(j)
                r |= deep(j)
        _DEEP[i] = r = frozenset(r)
    return r


class Facts:
    """Conjunction of affine facts; copy-on-write."""
    __slots__ = ('ge', 'ne', 'sub', 'lo', 'hi', 'cache', 'bad')

    def __init__(self):
        self.ge = ()
        self.ne = ()
        self.sub = {}
        self.lo = {}
        self.hi = {}
        self.cache = {}
        self.bad = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.ge = self.ge
        f.ne = self.ne
        f.sub = self.sub
        f.lo = self.lo
        f.hi = self.hi
        f.cache = self.cache
        f.bad = self.bad
        return f

    # -- normalisation
    def canon(self, l):
        sub = self.sub
        if not sub or not l.t:
            return l
        hit = False
        for i, _ in l.t:
            if i in sub:
                hit = True
                break
        if not hit:
            return l
        r = Lin(l.c)
        for i, k in l.t:
            s = sub.get(i)
            r = r + (s * k if s is not None else Lin.of(i, k))
        return self.canon(r)

    def bounds(self, l):
        lo = hi = l.c
        L_, H_ = self.lo, self.hi
        for i, k in l.t:
            a = ATOMS[i]
            al = L_.get(i, a.lo)
            ah = H_.get(i, a.hi)
            if k < 0:
                al, ah = ah, al
            if lo is not None:
                lo = None if al is None else lo + k * al
            if hi is not None:
                hi = None if ah is None else hi + k * ah
        return lo, hi

    # -- queries
    def ent_ge(self, l):
        """Is l >= 0 in every model?"""
        l = self.canon(l)
        if not l.t:
            return l.c >= 0
        if self.bad:
            return True
        l = norm_ge(l)
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return True
        r = self.cache.get(l)
        if r is not None:
            return r
        r = self._ent(l)
        self.cache[l] = r
        return r

    def _ent(self, l):
        at = set(l.atoms())
        for f in self.ge:
            for i, _ in f.t:
                if i in at:
                    lo, _h = self.bounds(l - f)
                    if lo is not None and lo >= 0:
                        Stats.quick += 1
                        return True
                    break
        for i in at:
            for f in ATOMS[i].defs:
                lo, _h = self.bounds(l - f)
                if lo is not None and lo >= 0:
                    return True
        rows = self._rows(at)
        if not rows:
            return False
        rows.append(norm_ge(-l - 1))
        return not _feasible(rows)

    def _rows(self, at):
        """Facts and definitions connected to the atoms `at`."""
        seen = set(at)
        rows = []
        pend = list(self.ge)
        done_defs = set()
        changed = True
        while changed:
            changed = False
            for i in list(seen):
                if i in done_defs:
                    continue
                done_defs.add(i)
                for f in ATOMS[i].defs:
                    f = self.canon(f)
                    if f.t:
                        rows.append(f)
                        for j, _ in f.t:
                            if j not in seen:
                                seen.add(j)
                                changed = True
                if i in self.sub:
                    pass
            np = []
            for f in pend:
                if any(j in seen for j, _ in f.t):
                    rows.append(f)
                    for j, _ in f.t:
                        if j not in seen:
                            seen.add(j)
                            changed = True
                else:
                    np.append(f)
            pend = np
        if not rows and not any(i in self.lo or i in self.hi for i in at):
            return []
        # definitions of substituted atoms whose image mentions seen atoms
        for i, s in self.sub.items():
            if ATOMS[i].defs and any(j in seen for j, _ in s.t):
                for f in ATOMS[i].defs:
                    f = self.canon(f)
                    if f.t:
                        rows.append(f)
                        for j, _ in f.t:
                            seen.add(j)
        for i in seen:
            a = ATOMS[i]
            lo = self.lo.get(i, a.lo)
            hi = self.hi.get(i, a.hi)
            if lo is not None and lo != a.lo:
                rows.append(Lin.of(i) - lo)
            if hi is not None:
                rows.append(Lin(hi) - Lin.of(i))
        return rows

    def ent_eq(self, l):
        l = self.canon(l)
        if not l.t:
            return l.c == 0
        return self.ent_ge(l) and self.ent_ge(-l)

    def ent_ne(self, l):
        l = self.canon(l)
        if not l.t:
            return l.c != 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        for n in self.ne:
            if n == l or n == -l:
                return True
        return self.ent_ge(l - 1) or self.ent_ge(-l - 1)

    # -- assertions (return False when the facts became contradictory)
    def _own(self):
        self.cache = {}

    def add_ge(self, l):
        l = norm_ge(self.canon(l))
        if not l.t:
            if l.c < 0:
                self.bad = True
            return not self.bad
        if self.ent_ge(l):
            return True
        self._own()
        if len(l.t) == 1:
            i, k = l.t[0]
            if k == 1:
                v = -l.c
                if v > self.lo.get(i, ATOMS[i].lo if ATOMS[i].lo is not None else v - 1):
                    self.lo = dict(self.lo)
                    self.lo[i] = v
            elif k == -1:
                v = l.c
                h = self.hi.get(i, ATOMS[i].hi)
                if h is None or v < h:
                    self.hi = dict(self.hi)
                    self.hi[i] = v
            lo = self.lo.get(i, ATOMS[i].lo)
            hi = self.hi.get(i, ATOMS[i].hi)
            if lo is not None and hi is not None:
                if lo > hi:
                    self.bad = True
                    return False
                if lo == hi:
                    return self._subst(i, Lin(lo))
        else:
            self.ge = self.ge + (l,)
            if self.ent_ge(-l):
                return self.add_eq(l)
        self._recheck_ne()
        return not self.bad

    def tighten(self, l, lo, hi):
        """Record bounds of a single atom even where they follow from the other facts."""
        l = self.canon(l)
        if len(l.t) != 1 or l.t[0][1] != 1 or l.c:
            self.add_ge(l - lo)
            self.add_ge(Lin(hi) - l)
            return
        i = l.t[0][0]
        self._own()
        if self.lo.get(i, ATOMS[i].lo) is None or self.lo.get(i, ATOMS[i].lo) < lo:
            self.lo = dict(self.lo)
            self.lo[i] = lo
        if self.hi.get(i, ATOMS[i].hi) is None or self.hi.get(i, ATOMS[i].hi) > hi:
            self.hi = dict(self.hi)
            self.hi[i] = hi
        lo, hi = self.lo.get(i, ATOMS[i].lo), self.hi.get(i, ATOMS[i].hi)
        if lo > hi:
            self.bad = True
        elif lo == hi:
            self._subst(i, Lin(lo))

    def _recheck_ne(self):
        if not self.ne:
            return
        ne = self.ne
        self.ne = ()
        keep = []
        for n in ne:
            n = self.canon(n)
            if not n.t:
                if n.c == 0:
                    self.bad = True
                continue
            if self.ent_ge(n):
                self.add_ge(n - 1)
            elif self.ent_ge(-n):
                self.add_ge(-n - 1)
            else:
                keep.append(n)
        self.ne = tuple(keep) + self.ne

    def add_ne(self, l):
        l = self.canon(l)
        if not l.t:
            if l.c == 0:
                self.bad = True
            return not self.bad
        if self.ent_ge(l):
            return self.add_ge(l - 1)
        if self.ent_ge(-l):
            return self.add_ge(-l - 1)
        if l not in self.ne:
            self.ne = self.ne + (l,)
        return True

    def add_eq(self, l):
        l = self.canon(l)
        if not l.t:
            if l.c != 0:
                self.bad = True
            return not self.bad
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            self.bad = True
            return False
        if g > 1:
            l = Lin(l.c // g, tuple((i, k // g) for i, k in l.t))
        # pick an atom with unit coefficient: prefer fresh variables, then the newest atom
        best = None
        for i, k in l.t:
            if k in (1, -1) and not any(j != i and i in deep(j) for j, _ in l.t):
                A = ATOMS[i]
                rank = (1 if A.kind == 'v' else 0, i)
                if A.kind == 'kap':
                    rank = (2, i)
                if best is None or rank > best[0]:
                    best = (rank, i, k)
        if best is None:
            self._own()
            self.ge = self.ge + (l, -l)
            return True
        _, i, k = best
        rest = Lin(l.c, tuple((j, c) for j, c in l.t if j != i))
        return self._subst(i, -rest if k == 1 else rest)

    def _subst(self, i, e):
        self._own()
        A = ATOMS[i]
        lo = self.lo.get(i, A.lo)
        hi = self.hi.get(i, A.hi)
        self.sub = dict(self.sub)
        self.sub[i] = e
        old = self.ge
        self.ge = ()
        if lo is not None:
            self.add_ge(e - lo)
        if hi is not None:
            self.add_ge(Lin(hi) - e)
        for f in old:
            if self.bad:
                return False
            if any(j == i for j, _ in f.t):
                self.add_ge(f)
            else:
                self.ge = self.ge + (f,)
        self._recheck_ne()
        return not self.bad

    def consistent(self):
        """Final (rational) feasibility of everything known."""
        if self.bad:
            return False
        at = set()
        for f in self.ge:
            at.update(f.atoms())
        rows = self._rows(at)
        if rows and not _feasible(rows):
            self.bad = True
            return False
        return True
