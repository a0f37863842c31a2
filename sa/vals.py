"""Abstract values: affine integers, formulas, aggregates, pointers, containers, trit regions and sponge terms."""
from .lin import Lin, L, atom, fresh, ATOMS, DEPTH, static_bounds


class _V:
    __slots__ = ('h',)

    def _k(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self._k() == o._k())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self.h
        except AttributeError:
            self.h = hash((type(self).__name__, self._k()))
            return self.h

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self._k())


class Ptr(_V):
    __slots__ = ('obj', 'path', 'meta')

    def __init__(self, obj, path=(), meta=None):
        self.obj = obj
        self.path = path
        self.meta = meta

    def _k(self):
        return (self.obj, self.path, self.meta)

    def off(self):
        """Element offset of a pointer into a sequence (0 when the path has no element step)."""
        if self.path and self.path[-1][0] == 'e':
            return self.path[-1][1]
        return Lin(0)

    def base(self):
        if self.path and self.path[-1][0] == 'e':
            return (self.obj, self.path[:-1])
        return (self.obj, self.path)

    def add(self, k):
        b = self.base()
        return Ptr(b[0], b[1] + (('e', self.off() + k),), self.meta)


class Agg(_V):
    """Struct, tuple, enum value, array with known elements or closure."""
    __slots__ = ('tag', 'var', 'f')

    def __init__(self, tag, var, f):
        self.tag = tag
        self.var = var
        self.f = tuple(f)

    def _k(self):
        return (self.tag, self.var, self.f)


class VecV(_V):
    """A std::vec::Vec (or Box<[T]>, String): owns a heap object."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def _k(self):
        return (self.obj,)


class Sp(_V):
    """A sponge in the transcript abstraction."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _k(self):
        return (self.t,)


class Sym(_V):
    """A lazily expanded symbolic value of a type."""
    __slots__ = ('ty', 'key')

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key

    def _k(self):
        return (self.ty, self.key)


class FnSym(_V):
    """A callable parameter whose behaviour is given by the client."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _k(self):
        return (self.name,)


class FnV(_V):
    """A function item used as a value."""
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee

    def _k(self):
        return (self.callee.get('key') or self.callee.get('rpath') or self.callee.get('path'),)


class Opq(_V):
    """An opaque value identified by a key (result of an uninterpreted operation)."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def _k(self):
        return (self.key,)


class StrV(_V):
    """str / String contents known as a Python string, or an opaque one."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def _k(self):
        return (self.s,)


UNIT = Agg('tuple', None, ())
UNINIT = Opq(('uninit',))


# ------------------------------------------------------------------ formulas
def f_ge(l):
    l = L(l)
    if l.is_const():
        return l.c >= 0
    return ('ge', l)


def f_eq(l):
    l = L(l)
    if l.is_const():
        return l.c == 0
    if l.c == 0 and len(l.t) == 1:
        A = ATOMS[l.t[0][0]]
        if A.kind == 'BitOr' and A.lo is not None and A.lo >= 0:
            return f_and(f_eq(A.args[0]), f_eq(A.args[1]))
        if A.kind == 'BitXor':
            return f_eq(A.args[0] - A.args[1])
    return ('eq', l)


def f_not(f):
    if f is True or f is False:
        return not f
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge':
        return f_ge(-f[1] - 1)
    if f[0] == 'and':
        return f_or(f_not(f[1]), f_not(f[2]))
    if f[0] == 'or':
        return f_and(f_not(f[1]), f_not(f[2]))
    return ('not', f)


def f_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return ('and', a, b)


def f_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return ('or', a, b)


# ------------------------------------------------------------------ trit contents
# A piece is (len: Lin, kind, data, off: Lin); a content is a tuple of pieces.
def piece(n, kind, data=None, off=0):
    return (L(n), kind, data, L(off))


def zero(n):
    n = L(n)
    if n.is_const() and n.c == 0:
        return ()
    return ((n, 'zero', None, Lin(0)),)


def clen(c):
    n = Lin(0)
    for p in c:
        n = n + p[0]
    return n


def norm(c):
    """Merge adjacent pieces, drop empty ones."""
    out = []
    for p in c:
        n = p[0]
        if n.is_const() and n.c == 0:
            continue
        if p[1] == 'val' and p[2] == Lin(0):
            p = (n, 'zero', None, Lin(0))
        if out:
            q = out[-1]
            if q[1] == p[1] and q[2] == p[2]:
                if q[1] == 'zero':
                    out[-1] = (q[0] + n, 'zero', None, Lin(0))
                    continue
                if q[1] not in ('val', 'havoc', 'enc') and q[3] + q[0] == p[3]:
                    out[-1] = (q[0] + n, q[1], q[2], q[3])
                    continue
            if q[1] == 'enc' and p[1] == 'enc' and q[2][0] == p[2][0] and p[3] == q[3] + q[0] and _is_prefix(q[2][1], p[2][1]):
                out[-1] = (q[0] + n, 'enc', p[2], q[3])
                continue
        out.append(p)
    return tuple(out)


def _is_prefix(a, b):
    """Plaintext a (of the preceding ciphertext) is the beginning of plaintext b."""
    if len(a) > len(b):
        return False
    if not a:
        return True
    x, y = a[-1], b[len(a) - 1]
    return a[:-1] == b[:len(a) - 1] and x[1:] == y[1:]


class Region(_V):
    """Contents of a buffer of trits."""
    __slots__ = ('n', 'c')

    def __init__(self, n, c):
        self.n = L(n)
        self.c = c

    def _k(self):
        return (self.n, self.c)


class Seq(_V):
    """Contents of a buffer of other elements: known items, or a symbolic base with overlaid writes."""
    __slots__ = ('n', 'items', 'base', 'w')

    def __init__(self, n, items=None, base=None, w=()):
        self.n = L(n)
        self.items = items
        self.base = base
        self.w = w

    def _k(self):
        return (self.n, self.items, self.base, self.w)


class Smash(_V):
    """An integer array abstracted by one interval."""
    __slots__ = ('n', 'lo', 'hi')

    def __init__(self, n, lo, hi):
        self.n = L(n)
        self.lo = lo
        self.hi = hi

    def _k(self):
        return (self.n, self.lo, self.hi)


# ------------------------------------------------------------------ sponge terms
INIT = ('init',)
_INTERN = {}


class T(tuple):
    """A sponge term: a hash-consed tuple, so that terms sharing structure stay linear in size."""

    def __eq__(self, o):
        if type(o) is T:
            return self is o
        return tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.h

    def __repr__(self):
        if DEPTH[0] > 3:
            return '..'
        DEPTH[0] += 1
        try:
            return tuple.__repr__(self)
        finally:
            DEPTH[0] -= 1


def mkt(*items):
    k = tuple(items)
    t = _INTERN.get(k)
    if t is None:
        t = T(k)
        t.h = hash(k)
        _INTERN[k] = t
    return t


def sp_abs(s, c):
    c = norm(c)
    if not c:
        return s
    if s[0] == 'abs':
        return mkt('abs', s[1], norm(s[2] + c))
    return mkt('abs', s, c)


def sp_com(s):
    if s[0] in ('com', 'init'):
        return s
    return mkt('com', s)


def sp_sqs(s, n):
    n = L(n)
    if n.is_const() and n.c == 0:
        return s
    if s[0] == 'sqs':
        return mkt('sqs', s[1], s[2] + n)
    return mkt('sqs', s, n)


def sq_content(s, n):
    n = L(n)
    if s[0] == 'sqs':
        return norm(((n, 'sq', s[1], s[2]),))
    return norm(((n, 'sq', s, Lin(0)),))


def sp_encs(s, c):
    c = norm(c)
    if not c:
        return s
    if s[0] == 'encs':
        return mkt('encs', s[1], norm(s[2] + c))
    return mkt('encs', s, c)


def slice_content_exact(c, off, n, ge, dec=None):
    """Sub-content [off, off+n) of content c; `ge(l)` decides l>=0 (or raises), `dec(l)` decides without splitting."""
    out = []
    i = 0
    skip = L(off)
    rem = L(n)
    dec = dec or (lambda l: None)
    while i < len(c):
        p = c[i]
        if skip.is_const() and skip.c == 0:
            break
        d = p[0] - skip
        if d.is_const() and d.c <= 0 or not d.is_const() and dec(-d) is True:
            skip = skip - p[0]
            i += 1
            continue
        if dec(d) is True or not ge(-d):
            p = cut(p, skip, d)
            c = c[:i] + (p,) + c[i + 1:]
            break
        skip = skip - p[0]
        i += 1
    while i < len(c):
        p = c[i]
        if rem.is_const() and rem.c == 0:
            break
        d = rem - p[0]
        if d.is_const() and d.c >= 0 or not d.is_const() and dec(d) is True:
            out.append(p)
            rem = d
            i += 1
            continue
        if dec(-d) is True or not ge(d):
            out.append(cut(p, Lin(0), rem))
            break
        out.append(p)
        rem = d
        i += 1
    return norm(tuple(out))


def cut(p, off, n):
    if p[1] == 'zero' or p[1] == 'val' and n == Lin(1):
        return (n, p[1], p[2], Lin(0))
    return (n, p[1], p[2], p[3] + off)


def tmap(t, fl, memo=None):
    """Rebuild a term, mapping every Lin leaf."""
    if memo is None:
        memo = {}
    if isinstance(t, Lin):
        return fl(t)
    if isinstance(t, tuple):
        if type(t) is T:
            r = memo.get(id(t))
            if r is None:
                r = memo[id(t)] = mkt(*[tmap(x, fl, memo) for x in t])
            return r
        return tuple([tmap(x, fl, memo) for x in t])
    if isinstance(t, Agg):
        return Agg(t.tag, t.var, tuple(tmap(x, fl, memo) for x in t.f))
    if isinstance(t, Ptr):
        return Ptr(t.obj, tmap(t.path, fl, memo), tmap(t.meta, fl, memo))
    if isinstance(t, Sp):
        return Sp(tmap(t.t, fl, memo))
    if isinstance(t, Region):
        return Region(fl(t.n), tmap(t.c, fl, memo))
    if isinstance(t, Seq):
        return Seq(fl(t.n), tmap(t.items, fl, memo), tmap(t.base, fl, memo), tmap(t.w, fl, memo))
    if isinstance(t, Opq):
        return Opq(tmap(t.key, fl, memo))
    if isinstance(t, Sym):
        return Sym(t.ty, tmap(t.key, fl, memo))
    return t
