"""Abstract interpreter over MIR: affine integers with polyhedral facts, symbolic trit contents, trace partitioning."""
import re
import time
from .lin import Lin, L, atom, fresh, ATOMS, Facts, div_atom, static_bounds
from .vals import *


class Split(Exception):
    """The abstract state has to be partitioned on a formula."""

    def __init__(self, f):
        self.f = f


class SplitVals(Exception):
    """Partition into states given as decided keys (list of (key, value))."""

    def __init__(self, opts):
        self.opts = opts


class Imprecise(Exception):
    pass


class Unsupported(Exception):
    pass


class Diverge(Exception):
    """The current operation never returns (panic already recorded)."""


INT_BITS = {}


_MEMO = [None, {}]


def _memo(st, key, f):
    """Results of nested comparisons, kept during one outermost comparison (the facts do not change meanwhile)."""
    top = _MEMO[0] is None
    if top:
        _MEMO[0] = st
        _MEMO[1] = {}
    elif _MEMO[0] is not st:
        return f()
    m = _MEMO[1]
    try:
        if key in m:
            return m[key]
        r = m[key] = f()
        return r
    finally:
        if top:
            _MEMO[0] = None
            _MEMO[1] = {}


class State:
    __slots__ = ('mem', 'facts', 'dec', 'ev', 'na', 'nf', 'it', 'tag', 'unr')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.dec = {}
        self.ev = None
        self.na = 0
        self.nf = 0
        self.it = None
        self.tag = ()
        self.unr = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.dec = self.dec
        s.ev = self.ev
        s.na = self.na
        s.nf = self.nf
        s.it = self.it
        s.tag = self.tag
        s.unr = self.unr
        return s

    def become(self, s):
        for k in self.__slots__:
            setattr(self, k, getattr(s, k))

    # ---- events
    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    # ---- formulas
    def decide(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        F = self.facts
        if k == 'ge':
            if F.ent_ge(f[1]):
                return True
            if F.ent_ge(-f[1] - 1):
                return False
            return None
        if k == 'eq':
            if F.ent_eq(f[1]):
                return True
            if F.ent_ne(f[1]):
                return False
            return None
        if k == 'op':
            return self.known(self.canon_term(f[1]))
        if k == 'not':
            r = self.decide(f[1])
            return None if r is None else not r
        if k == 'and':
            a = self.decide(f[1])
            if a is False:
                return False
            b = self.decide(f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.decide(f[1])
            if a is True:
                return True
            b = self.decide(f[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        raise Unsupported('formula %r' % (f,))

    def assume(self, f, v=True):
        """List of states (self is consumed) in which f has truth value v."""
        if f is True or f is False:
            return [self] if f == v else []
        k = f[0]
        if k == 'not':
            return self.assume(f[1], not v)
        if not v:
            if k == 'ge':
                return self.assume(f_ge(-f[1] - 1), True)
            if k == 'and':
                return self.assume(f_or(f_not(f[1]), f_not(f[2])), True)
            if k == 'or':
                return self.assume(f_and(f_not(f[1]), f_not(f[2])), True)
        if k == 'op':
            key = self.canon_term(f[1])
            o = self.known(key)
            if o is not None:
                return [self] if o == v else []
            self.dec = dict(self.dec)
            self.dec[key] = v
            return [self]
        if k == 'ge':
            return [self] if self.facts.add_ge(f[1]) else []
        if k == 'eq':
            ok = self.facts.add_eq(f[1]) if v else self.facts.add_ne(f[1])
            return [self] if ok else []
        if k == 'and':
            out = []
            for s in self.assume(f[1], True):
                out.extend(s.assume(f[2], True))
            return out
        if k == 'or':
            d = self.decide(f[1])
            if d is True:
                return [self]
            if d is False:
                return self.assume(f[2], True)
            d = self.decide(f[2])
            if d is True:
                return [self]
            if d is False:
                return self.assume(f[1], True)
            a = self.copy().assume(f[1], True)
            b = []
            for s in self.assume(f[1], False):
                b.extend(s.assume(f[2], True))
            return a + b
        raise Unsupported('assume %r' % (f,))

    def must(self, f):
        """Truth value of f; splits the state when undecided."""
        d = self.decide(f)
        if d is None:
            raise Split(f)
        return d

    def ge(self, l):
        d = self.decide(f_ge(l))
        if d is None:
            raise Split(f_ge(l))
        return d

    def nz(self, c):
        """Content without pieces known to be empty."""
        return tuple(p for p in c if not (p[0].is_const() and p[0].c == 0) and not (not p[0].is_const() and self.facts.ent_eq(p[0])))

    def dge(self, l):
        return self.decide(f_ge(l))

    # ---- canonical terms under the known equalities
    def canon(self, l):
        return canon_lin(self.facts, l)

    def known(self, key):
        """Decision taken on a condition; conditions decided before an equality became known are compared as they read now."""
        o = self.dec.get(key)
        if o is not None or not self.facts.sub:
            return o
        for k, v in self.dec.items():
            if k[0] == key[0] and len(k) == len(key) and tmap(k, self.canon) == key:
                return v
        return None

    def canon_term(self, t):
        return tmap(t, self.canon) if self.facts.sub else t

    def same(self, a, b):
        if a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.facts.ent_eq(a - b)
        ca, cb = self.canon_term(a), self.canon_term(b)
        if ca == cb:
            return True
        return self._same(ca, cb)

    def _same(self, a, b):
        if a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.facts.ent_eq(a - b)
        return _memo(self, ('s', a, b), lambda: self._same1(a, b))

    def _same1(self, a, b):
        if type(a) is not type(b) and not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        if isinstance(a, tuple):
            if len(a) != len(b):
                if _is_content(a) and _is_content(b):
                    return self.same_content(a, b)
                return False
            return all(self._same(x, y) for x, y in zip(a, b)) or (_is_content(a) and _is_content(b) and self.same_content(a, b))
        if isinstance(a, _V_TYPES):
            return self._same(a._k(), b._k())
        return False

    def norm_content(self, c):
        out = []
        F = self.facts
        for p in c:
            p = (F.canon(p[0]),) + tuple(p[1:])
            if F.ent_eq(p[0]):
                continue
            out.append(p)
        res = []
        for p in norm(tuple(out)):
            if res:
                q = res[-1]
                if q[1] == p[1] and q[1] not in ('val', 'havoc', 'zero') and self._same(q[2], p[2]) and F.ent_eq(q[3] + q[0] - p[3]):
                    res[-1] = (q[0] + p[0], q[1], q[2], q[3])
                    continue
            res.append(p)
        return tuple(res)

    def same_content(self, a, b):
        """Are two contents equal (same length, same pieces)?  False means not shown."""
        if a == b:
            return True
        return _memo(self, ('c', a, b), lambda: self.same_content1(a, b))

    def same_content1(self, a, b):
        a = self.norm_content(self.canon_term(a))
        b = self.norm_content(self.canon_term(b))
        if a == b:
            return True
        if len(a) != len(b):
            return False
        for p, q in zip(a, b):
            if not self.facts.ent_eq(p[0] - q[0]):
                return False
            if p[1] != q[1]:
                return False
            if p[1] == 'zero':
                continue
            if p[1] == 'havoc':
                return False
            if p[1] == 'const' and p[0].is_const() and p[3].is_const() and q[3].is_const():
                if p[2][p[3].c:p[3].c + p[0].c] != q[2][q[3].c:q[3].c + p[0].c]:
                    return False
                continue
            if not self._same(p[2], q[2]) or not self.facts.ent_eq(p[3] - q[3]):
                return False
        return True


_V_TYPES = (Ptr, Agg, VecV, Sp, Sym, FnSym, FnV, Opq, StrV, Region, Seq, Smash)


def _is_content(t):
    return isinstance(t, tuple) and all(isinstance(p, tuple) and len(p) == 4 and isinstance(p[0], Lin) and isinstance(p[1], str) for p in t)


_canon_atom_cache = {}


def canon_lin(F, l, depth=3):
    if not F.sub:
        return l
    l = F.canon(l)
    r = None
    for i, k in l.t:
        a = ATOMS[i]
        if a.kind in ('v', 'kap', 's'):
            continue
        args = tmap(a.args, lambda x: canon_lin(F, x))
        if args != a.args:
            n = rebuild_atom(a, args)
            if r is None:
                r = l
            r = r - Lin.of(i, k) + n * k
    if r is None:
        return l
    # the rebuilt atoms may be substituted themselves
    return canon_lin(F, r, depth - 1) if depth and F.canon(r) != r else r


# Further evaluators of compound atoms (registered by the modules that introduce them).
ATOM_EVAL = {}


def rebuild_atom(a, args):
    if a.kind == 'pdiv':
        return pos_div(args[0], args[1])
    if a.kind == 'div':
        return div_atom(args[0], args[1])
    if a.kind == 'mul':
        return Lin.of(args[0]) * Lin.of(args[1])
    ev = ATOM_EVAL.get(a.kind)
    if ev is not None:
        return ev(*args)
    return atom(a.kind, args, a.lo, a.hi)


class Panic:
    """A panic that could not be excluded."""
    __slots__ = ('where', 'fn', 'what', 'state', 'kind')

    def __init__(self, where, fn, what, state, kind):
        self.where = where
        self.fn = fn
        self.what = what
        self.state = state
        self.kind = kind

    def key(self):
        return (self.kind, self.fn, self.what)

    def __repr__(self):
        return '%s at %s in %s: %s' % (self.kind, self.where, self.fn, self.what)


TIME_LIMIT = 90
TIME_BUDGET = 240
TIME_LATE = 10


class Interp:
    def __init__(self, prog, hooks=None, unroll=130):
        self.p = prog
        self.types = prog.types
        self.hooks = hooks or {}
        self.panics = []
        self.notes = []
        self.unroll = unroll
        self.depth = 0
        self.analysed = set()
        self.calls = 0
        self.steps = 0
        self.max_states = 4000
        self.loop_hook = None
        self.unknown = {}
        self.stack = []
        self.transparent_sponge = False
        self.step_limit = 3000000
        # processor time: a configuration that does not converge becomes
        # undecided and leaves time for the others
        now = time.process_time()
        self.deadline = now + (TIME_LIMIT if now < TIME_BUDGET else TIME_LATE)
        self.oob_checks = 0
        self.asserts = 0
        self.fast_loops = 0

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def int_range(self, i):
        t = self.types[i]
        if t['k'] == 'int':
            b = t['bits']
            if t['signed']:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        if t['k'] == 'char':
            return 0, 0x10ffff
        if t['k'] == 'bool':
            return 0, 1
        return None

    def is_u8(self, i):
        t = self.types[i]
        return t['k'] == 'int' and not t['signed'] and t['bits'] == 8

    def is_adt(self, i, path):
        t = self.types[i]
        return t['k'] == 'adt' and self.p.npath(t['path']) == path

    # ------------------------------------------------------------ panics
    def panic(self, st, kind, what, where=None):
        fn = self.stack[-1] if self.stack else None
        w = where or (fn[0].where(fn[1]) if fn else '?')
        self.panics.append(Panic(w, fn[0].npath if fn else '?', what, st.copy(), kind))

    def require(self, st, f, kind, what):
        """Obligation: f holds here. Records a possible panic when not shown; returns states where it holds."""
        self.asserts += 1
        d = st.decide(f)
        if d is True:
            return [st]
        self.panic(st, kind, what)
        if d is False:
            return []
        return st.assume(f, True)

    def alloc(self, st, n, what):
        """Allocation request of n elements (clients may check the amount)."""
        if self.alloc_hook is not None:
            self.alloc_hook(self, st, n, what)

    alloc_hook = None
    no_merge = False
    on_branch = None        # called for every branch that is not decided by the path
    on_index = None         # called for every element access

    # ------------------------------------------------------------ memory
    def new_obj(self, st, val, tag='H'):
        st.na += 1
        o = (tag, st.na)
        st.mem[o] = val
        return o

    def load_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == 'S':
                raise Unsupported('no object %r' % (obj,))
            return UNINIT
        if isinstance(v, Sym):
            e = self.expand(st, v)
            if e is not v:
                st.mem[obj] = e
            return e
        return v

    def project(self, st, v, e):
        """Sub-value of v at path element e."""
        if isinstance(v, Sym):
            v = self.expand(st, v)
        if e[0] == 'f':
            if isinstance(v, Agg):
                if e[1] >= len(v.f):
                    return UNINIT
                r = v.f[e[1]]
                if isinstance(r, Sym):
                    return self.expand(st, r)
                return r
            if isinstance(v, Opq):
                if v == UNINIT:
                    return UNINIT
                return Opq(('fld', v.key, e[1]))
            if isinstance(v, (Ptr, VecV, FnSym, FnV)) and e[1] == 0:
                return v     # single-field wrappers (NonNull, Unique, Box, Pin) are transparent
            raise Unsupported('field of %r' % (v,))
        if e[0] == 'v':
            return v
        if e[0] == 'e':
            return self.elem(st, v, e[1])
        raise Unsupported('path %r' % (e,))

    def elem(self, st, v, i):
        if isinstance(v, VecV):
            v = self.load_obj(st, v.obj)
        if isinstance(v, Region):
            self.bounds(st, v.n, i, Lin(1), 'read')
            return self.trit_at(st, self.read_region(st, v, i, Lin(1)))
        if isinstance(v, Seq):
            self.bounds(st, v.n, i, Lin(1), 'read')
            return self.seq_get(st, v, i)
        if isinstance(v, Smash):
            self.bounds(st, v.n, i, Lin(1), 'read')
            return fresh('cell', v.lo, v.hi)
        if isinstance(v, Agg):
            self.bounds(st, Lin(len(v.f)), i, Lin(1), 'read')
            i = st.canon(i)
            if i.is_const():
                if 0 <= i.c < len(v.f):
                    return v.f[i.c]
                raise Diverge()
            for k in range(len(v.f)):
                if st.must(f_eq(i - k)):
                    return v.f[k]
            raise Diverge()
        if isinstance(v, Ptr) and v.meta is not None:
            return self.read_path(st, v.add(i))
        if isinstance(v, Opq):
            return Opq(('elt', v.key, i))
        raise Unsupported('element of %r' % (v,))

    def bounds(self, st, n, i, k, what):
        """Memory obligation: [i, i+k) inside [0, n)."""
        self.oob_checks += 1
        if self.on_index is not None:
            self.on_index(self, st, i, k, n, what)
        if st.decide(f_and(f_ge(i), f_ge(n - i - k))) is True:
            return
        if k == Lin(0):
            return
        if st.decide(f_ge(-k)) is True:
            return
        self.panic(st, 'oob', '%s of [%r, +%r) in a buffer of %r' % (what, i, k, n))
        for s in st.copy().assume(f_and(f_ge(i), f_ge(n - i - k)), True)[:1]:
            st.facts = s.facts
            return
        raise Diverge()

    def seq_get(self, st, v, i):
        i = st.canon(i)
        for (j, val) in reversed(v.w):
            if st.must(f_eq(i - j)):
                return val
        if v.items is not None:
            if i.is_const():
                if 0 <= i.c < len(v.items):
                    r = v.items[i.c]
                    return self.expand(st, r) if isinstance(r, Sym) else r
                raise Diverge()
            for k in range(len(v.items)):
                if st.must(f_eq(i - k)):
                    return v.items[k]
            raise Diverge()
        if v.base is not None:
            kind = v.base[0]
            if kind == 'sym':
                return self.sym(st, v.base[1], v.base[2] + ('[]', i))
            if kind == 'const':
                return v.base[1]
            if kind == 'fn':
                return v.base[1](self, st, i)
            if kind == 'opq':
                return Opq(('elt', v.base[1], i))
        raise Unsupported('read of %r at %r' % (v, i))

    def read_region(self, st, r, off, n):
        off = st.canon(L(off))
        n = st.canon(L(n))
        return slice_content_exact(r.c, off, n, st.ge, st.dge)

    def trit_at(self, st, c):
        """Value of a one-trit content."""
        if len(c) != 1:
            c = st.norm_content(c)
        if len(c) != 1:
            return fresh('trit', 0, 255)
        p = c[0]
        if p[1] == 'zero':
            return Lin(0)
        if p[1] == 'val':
            return p[2]
        if p[1] == 'const':
            o = st.canon(p[3])
            if o.is_const():
                return Lin(p[2][o.c])
            return fresh('trit', 0, 2)
        if p[1] == 'havoc':
            hi = p[2][1] if isinstance(p[2], tuple) else 2
            return fresh('trit', 0, hi)
        if p[1] == 'byte':
            return atom('byte', (p[1], p[2], p[3]), 0, 255)
        return atom('trit', (p[1], p[2], p[3]), 0, 2)

    def write_region(self, st, r, off, c):
        """Region with [off, off+len(c)) replaced."""
        n = clen(c)
        off = st.canon(L(off))
        pre = st.nz(self.read_region(st, r, Lin(0), off))
        end = off + n
        rest = r.n - end
        post = st.nz(self.read_region(st, r, end, rest)) if st.decide(f_eq(rest)) is not True else ()
        return Region(r.n, norm(pre + tuple(c) + post))

    def read_path(self, st, ptr):
        v = self.load_obj(st, ptr.obj)
        for e in ptr.path:
            if e[0] == 'e' and isinstance(v, VecV):
                v = self.load_obj(st, v.obj)
            v = self.project(st, v, e)
        if isinstance(v, Sym):
            v = self.expand(st, v)
        return v

    def write_path(self, st, ptr, val):
        if not ptr.path:
            st.mem[ptr.obj] = val
            return
        root = self.load_obj(st, ptr.obj)
        st.mem[ptr.obj] = self.set_path(st, root, ptr.path, val, None)

    def set_path(self, st, v, path, val, ty):
        if not path:
            return val
        e = path[0]
        if isinstance(v, Sym):
            v = self.expand(st, v)
        if e[0] == 'v':
            if not isinstance(v, Agg) or v.var != e[1]:
                v = Agg('enum', e[1], v.f if isinstance(v, Agg) else ())
            return self.set_path(st, v, path[1:], val, ty)
        if e[0] == 'f':
            if isinstance(v, Agg):
                f = list(v.f)
            elif isinstance(v, Opq) and v == UNINIT:
                f = []
            elif isinstance(v, Opq):
                f = []
            elif e[1] == 0 and isinstance(v, (Ptr, VecV)):
                return self.set_path(st, v, path[1:], val, ty)
            else:
                raise Unsupported('set field of %r' % (v,))
            while len(f) <= e[1]:
                f.append(UNINIT)
            f[e[1]] = self.set_path(st, f[e[1]], path[1:], val, ty)
            if isinstance(v, Agg):
                return Agg(v.tag, v.var, f)
            return Agg('part', None, f)
        if e[0] == 'e':
            i = st.canon(e[1])
            if isinstance(v, VecV):
                inner = self.load_obj(st, v.obj)
                st.mem[v.obj] = self.set_path(st, inner, path, val, ty)
                return v
            if isinstance(v, Region):
                self.bounds(st, v.n, i, Lin(1), 'write')
                if st.it is not None:
                    st.it.wrote(st, v, i, val)
                return self.write_region(st, v, i, ((Lin(1), 'val', val, Lin(0)),) if not _trit_piece(val) else (_trit_piece(val),))
            if isinstance(v, Seq):
                self.bounds(st, v.n, i, Lin(1), 'write')
                if len(path) > 1:
                    old = self.seq_get(st, v, i)
                    val = self.set_path(st, old, path[1:], val, ty)
                if v.items is not None:
                    if i.is_const():
                        it = list(v.items)
                        it[i.c] = val
                        return Seq(v.n, tuple(it), v.base, v.w)
                    for k in range(len(v.items)):
                        if st.must(f_eq(i - k)):
                            it = list(v.items)
                            it[k] = val
                            return Seq(v.n, tuple(it), v.base, v.w)
                    raise Diverge()
                w = tuple(x for x in v.w if not st.facts.ent_eq(x[0] - i)) + ((i, val),)
                return Seq(v.n, v.items, v.base, w)
            if isinstance(v, Smash):
                self.bounds(st, v.n, i, Lin(1), 'write')
                lo, hi = self.range_of(st, val)
                return Smash(v.n, min(lo, v.lo), max(hi, v.hi))
            if isinstance(v, Agg):
                self.bounds(st, Lin(len(v.f)), i, Lin(1), 'write')
                if i.is_const():
                    f = list(v.f)
                    f[i.c] = self.set_path(st, f[i.c], path[1:], val, ty)
                    return Agg(v.tag, v.var, f)
                for k in range(len(v.f)):
                    if st.must(f_eq(i - k)):
                        f = list(v.f)
                        f[k] = self.set_path(st, f[k], path[1:], val, ty)
                        return Agg(v.tag, v.var, f)
                raise Diverge()
            if isinstance(v, Ptr) and v.meta is not None:
                self.write_path(st, Ptr(v.add(i).obj, v.add(i).path + path[1:]), val)
                return v
            if isinstance(v, Opq):
                return v
        raise Unsupported('set %r in %r' % (path, v))

    def range_of(self, st, l):
        if not isinstance(l, Lin):
            return (-(1 << 63), (1 << 64))
        l = st.canon(l)
        lo, hi = st.facts.bounds(l)
        return (lo if lo is not None else -(1 << 63), hi if hi is not None else (1 << 64))

    # ------------------------------------------------------------ symbolic values
    def sym(self, st, ty, key):
        return self.expand(st, Sym(ty, key))

    def expand(self, st, v):
        t = self.types[v.ty]
        k = t['k']
        key = v.key
        if k == 'int':
            lo, hi = self.int_range(v.ty)
            return atom('s', (key,), lo, hi)
        if k == 'char':
            return atom('s', (key,), 0, 0x10ffff)
        if k == 'bool':
            return ('op', ('s', key))
        if k == 'tuple':
            return Agg('tuple', None, [Sym(x, key + (i,)) for i, x in enumerate(t['elems'])])
        if k in ('ref', 'ptr'):
            obj = ('S', key)
            to = self.types[t['to']]
            if obj not in st.mem:
                if to['k'] == 'slice':
                    n = atom('s', (key + ('len',),), 0, 1 << 40)
                    if self.is_u8(to['elem']):
                        st.mem[obj] = Region(n, ((n, 'src', key, Lin(0)),))
                    else:
                        st.mem[obj] = Seq(n, None, ('sym', to['elem'], key))
                elif to['k'] == 'dyn':
                    st.mem[obj] = Opq(('dyn', key))
                elif to['k'] == 'str':
                    return Ptr(obj, (), None)
                else:
                    st.mem[obj] = Sym(t['to'], key + ('*',))
            if to['k'] == 'slice':
                return Ptr(obj, (('e', Lin(0)),), st.mem[obj].n)
            return Ptr(obj)
        if k == 'array':
            n = t['len']
            if n is not None and n <= 32:
                return Agg('array', None, [Sym(t['elem'], key + (i,)) for i in range(n)])
            if self.is_u8(t['elem']):
                return Region(n, ((L(n), 'src', key, Lin(0)),))
            return Seq(n, None, ('sym', t['elem'], key))
        if k == 'closure' or k == 'param':
            return FnSym(key)
        if k == 'adt':
            path = self.p.npath(t['path'])
            if path == 'trits::trits::TritsT' and self.is_u8(t['args'][0]):
                n = atom('s', (key + ('size',),), 0, 1 << 40)
                return self.mk_trits(st, n, ((n, 'src', key, Lin(0)),), ('S', key))
            if path == 'spongos::Spongos' and not self.transparent_sponge:
                return Sp(('sym', key))
            if path == 'std::vec::Vec':
                obj = ('S', key)
                if obj not in st.mem:
                    n = atom('s', (key + ('len',),), 0, 1 << 40)
                    e = t['args'][0]
                    if self.is_u8(e):
                        st.mem[obj] = Region(n, ((n, 'src', key, Lin(0)),))
                    else:
                        st.mem[obj] = Seq(n, None, ('sym', e, key))
                return VecV(obj)
            if path in ('trits::slice::TritSliceT', 'trits::slice::TritSliceMutT') and self.is_u8(t['args'][0]):
                n = atom('s', (key + ('n',),), 0, 1 << 40)
                d = atom('s', (key + ('d',),), 0, 1 << 40)
                st.facts.add_ge(n - d)
                obj = ('S', key)
                if obj not in st.mem:
                    st.mem[obj] = Region(n, ((n, 'src', key, Lin(0)),))
                return Agg(path, None, [Agg('trits::slice::SliceRange', None, [n, d]), Ptr(obj, (('e', Lin(0)),)), UNIT])
            if t['kind'] == 'struct':
                if not t['variants']:
                    return Opq(key)
                return Agg(path, None, [Sym(f['t'], key + (f['n'],)) for f in t['variants'][0]['f']])
            if t['kind'] == 'enum':
                nv = len(t['variants'])
                for i in range(nv - 1):
                    d = st.dec.get(('var', key, i))
                    if d is True:
                        return Agg(path, i, [Sym(f['t'], key + (i, f['n'])) for f in t['variants'][i]['f']])
                    if d is None:
                        raise Split(('op', ('var', key, i)))
                i = nv - 1
                return Agg(path, i, [Sym(f['t'], key + (i, f['n'])) for f in t['variants'][i]['f']])
        return Opq(key)

    def mk_trits(self, st, n, c, obj=None):
        n = L(n)
        if obj is None:
            obj = self.new_obj(st, None)
        st.mem[obj] = Region(n, norm(c))
        return Agg('trits::trits::TritsT', None, [n, VecV(obj)])

    def mk_slice(self, st, tr, mut=False):
        """TritSlice over a Trits value."""
        return Agg('trits::slice::TritSliceMutT' if mut else 'trits::slice::TritSliceT', None,
                   [Agg('trits::slice::SliceRange', None, [tr.f[0], Lin(0)]), Ptr(tr.f[1].obj, (('e', Lin(0)),)), UNIT])

    def sl(self, st, s):
        """(object base, offset, length) of a TritSlice value."""
        if isinstance(s, Sym):
            s = self.expand(st, s)
        r = s.f[0]
        if isinstance(r, Sym):
            r = self.expand(st, r)
        p = s.f[1]
        if isinstance(p, Sym):
            p = self.expand(st, p)
        return p.base(), p.off() + r.f[1], r.f[0] - r.f[1]

    def region_at(self, st, base):
        v = self.load_obj(st, base[0])
        for e in base[1]:
            v = self.project(st, v, e)
        if isinstance(v, VecV):
            v = self.load_obj(st, v.obj)
        return v

    def get_content(self, st, base, off, n):
        r = self.region_at(st, base)
        if isinstance(r, Agg):
            r = self.region_of_array(r)
        if not isinstance(r, Region):
            raise Unsupported('content of %r' % (r,))
        self.bounds(st, r.n, off, n, 'read')
        return self.read_region(st, r, off, n)

    def region_of_array(self, a):
        return Region(len(a.f), norm(tuple(_trit_piece(x) or (Lin(1), 'val', x, Lin(0)) for x in a.f)))

    def put_content(self, st, base, off, c):
        r = self.region_at(st, base)
        n = clen(c)
        if isinstance(r, Agg):
            r = self.region_of_array(r)
            r = self.write_region(st, r, off, c)
            f = [self.trit_at(st, self.read_region(st, r, Lin(i), Lin(1))) for i in range(r.n.c)]
            self.write_path(st, Ptr(base[0], base[1]), Agg('array', None, f))
            return
        if not isinstance(r, Region):
            raise Unsupported('content write to %r' % (r,))
        self.bounds(st, r.n, off, n, 'write')
        if st.it is not None:
            st.it.wrote_content(st, base, off, c)
        r2 = self.write_region(st, r, off, c)
        if base[1]:
            v = self.load_obj(st, base[0])
            for e in base[1]:
                v = self.project(st, v, e)
            if isinstance(v, VecV):
                st.mem[v.obj] = r2
            else:
                self.write_path(st, Ptr(base[0], base[1]), r2)
        else:
            v = st.mem.get(base[0])
            if isinstance(v, VecV):
                st.mem[v.obj] = r2
            else:
                st.mem[base[0]] = r2

    # ------------------------------------------------------------ places and operands
    def place_ptr(self, st, fr, pl):
        """Pointer denoted by a place."""
        obj = ('L', fr, pl[0])
        path = ()
        for e in pl[1:]:
            if e == '*':
                v = self.read_path(st, Ptr(obj, path))
                if isinstance(v, Agg) and len(v.f) == 1:
                    v = v.f[0]
                if isinstance(v, VecV):
                    obj, path = v.obj, ()
                    continue
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r' % (v,))
                obj, path = v.obj, v.path
                meta = v.meta
                if meta is not None:
                    # keep the length for slice places
                    path = path
                continue
            k = e[0]
            if k == 'f':
                path = path + (('f', e[1]),)
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k == 'i':
                i = self.read_path(st, Ptr(('L', fr, e[1])))
                path = self.index_path(path, i)
            elif k == 'ci':
                if e[2]:
                    n = self.len_of_place(st, fr, pl, path, obj)
                    path = self.index_path(path, n - e[1])
                else:
                    path = self.index_path(path, Lin(e[1]))
            else:
                raise Unsupported('projection %r' % (e,))
        return Ptr(obj, path)

    def index_path(self, path, i):
        if path and path[-1][0] == 'e' and self.slice_place:
            return path[:-1] + (('e', path[-1][1] + i),)
        return path + (('e', i),)

    slice_place = False

    def len_of_place(self, st, fr, pl, path, obj):
        raise Unsupported('from-end index')

    def resolve(self, st, fr, pl):
        """Like place_ptr, but handles indexing relative to slice references."""
        obj = ('L', fr, pl[0])
        path = ()
        meta = None
        after_deref = False
        for e in pl[1:]:
            if e == '*':
                v = self.read_path(st, Ptr(obj, path))
                while isinstance(v, Agg) and len(v.f) >= 1 and not isinstance(v, Ptr):
                    v = v.f[0]
                    if isinstance(v, Sym):
                        v = self.expand(st, v)
                if isinstance(v, VecV):
                    obj, path, meta = v.obj, (), None
                    after_deref = True
                    continue
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r' % (v,))
                obj, path, meta = v.obj, v.path, v.meta
                after_deref = meta is not None
                continue
            k = e[0]
            if k == 'f':
                path = path + (('f', e[1]),)
                meta = None
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k in ('i', 'ci'):
                if k == 'i':
                    i = self.read_path(st, Ptr(('L', fr, e[1])))
                elif e[2]:
                    if meta is None:
                        raise Unsupported('from-end index')
                    i = meta - e[1]
                else:
                    i = Lin(e[1])
                if after_deref and meta is not None and path and path[-1][0] == 'e':
                    path = path[:-1] + (('e', path[-1][1] + i),)
                else:
                    path = path + (('e', i),)
                meta = None
            elif k == 'sub':
                if meta is None:
                    raise Unsupported('subslice')
                a = e[1]
                b = (meta - e[2]) if e[3] else Lin(e[2])
                path = path[:-1] + (('e', path[-1][1] + a),)
                meta = b - a
                continue
            else:
                raise Unsupported('projection %r' % (e,))
            after_deref = False
        return Ptr(obj, path, meta)

    def operand(self, st, fr, o):
        if 'p' in o:
            pl = o['p']
            if len(pl) == 1:
                v = st.mem.get(('L', fr, pl[0]), UNINIT)
                if isinstance(v, Sym):
                    v = self.load_obj(st, ('L', fr, pl[0]))
                return v
            return self.read_path(st, self.resolve(st, fr, pl))
        if 'rc' in o:
            return o['rc'] == 'OverflowChecks'
        if 'v' not in o:
            return self.const(st, {'zst': True}, o['c'])
        return self.const(st, o['v'], o['c'], o.get('name'))

    def const(self, st, v, ty, name=None):
        t = self.types[ty]
        if 'int' in v:
            if t['k'] in ('adt', 'tuple', 'array'):
                # single scalar newtype
                return self.wrap_scalar(st, t, v, ty)
            if t['k'] in ('ref', 'ptr'):
                return Ptr(('K', 'addr', v['int']), (('e', Lin(0)),))
            return Lin(v['int'])
        if 'bool' in v:
            return v['bool']
        if 'zst' in v:
            if t['k'] == 'fndef':
                return FnV(t['callee'])
            if t['k'] == 'array':
                return Agg('array', None, ())
            if t['k'] == 'closure':
                return Agg('closure', None, ())
            if t['k'] == 'adt' and t['variants'] and t['kind'] == 'struct':
                return Agg(self.p.npath(t['path']), None, [UNIT for _ in t['variants'][0]['f']])
            return UNIT
        if 'str' in v:
            return self.const_ref(st, StrV(v['str']), None)
        if 'arr' in v:
            return self.const_arr(st, v['arr'], t)
        if t['k'] == 'ref' and self.types[t['to']]['k'] == 'fndef':
            return self.const_ref(st, FnV(self.types[t['to']]['callee']), None)
        if 'ref' in v:
            to = self.types[t['to']] if t['k'] in ('ref', 'ptr') else None
            if to is None:
                return Opq(('const', str(v)[:200]))
            if to['k'] == 'str':
                return self.const_ref(st, StrV(v['ref'].get('str') if isinstance(v['ref'], dict) else None), None)
            inner = self.const(st, v['ref'], t['to'])
            return self.const_ref(st, inner, v)
        if 'slice' in v:
            to = self.types[t['to']]
            a = self.const_arr(st, v['slice'], {'k': 'array', 'elem': to['elem'], 'len': len(v['slice'])})
            p = self.const_ref(st, a, v)
            return Ptr(p.obj, (('e', Lin(0)),), Lin(len(v['slice'])))
        if 'adt' in v or 'fields' in v:
            fs = v.get('fields', [])
            var = v.get('variant')
            vi = var if isinstance(var, int) else 0
            fts = t['variants'][vi]['f']
            return Agg(self.p.npath(t['path']), var if t['kind'] == 'enum' else None,
                       [self.const(st, x, fts[i]['t']) for i, x in enumerate(fs)])
        if 'tuple' in v:
            return Agg('tuple', None, [self.const(st, x, t['elems'][i]) for i, x in enumerate(v['tuple'])])
        if 'fn' in v:
            return FnV({'key': v['fn'], 'path': v['fn'], 'kind': 'item'})
        return Opq(('const', name or str(v)[:200]))

    def wrap_scalar(self, st, t, v, ty):
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['variants']:
            return Agg(self.p.npath(t['path']), None, [self.const(st, v, f['t']) if self.types[f['t']]['k'] in ('int', 'bool', 'char', 'adt') else UNIT for f in t['variants'][0]['f']])
        return Opq(('const', str(v)[:200], ty))

    def const_arr(self, st, items, t):
        e = t['elem']
        et = self.types[e]
        vals = [self.const(st, x, e) for x in items]
        return Agg('array', None, vals)

    def const_ref(self, st, inner, v):
        o = ('K', inner)
        if o not in st.mem:
            st.mem[o] = inner
        return Ptr(o)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, body):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            p = self.resolve(st, fr, rv[1])
            if p.meta is None and p.path and p.path[-1][0] != 'e' or not p.path:
                # reference to an unsized place reached through a Box/Vec is not produced here
                pass
            return p
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[3]]
            kind = rv[1]
            if kind == 'tuple':
                return Agg('tuple', None, ops)
            if kind == 'array':
                return Agg('array', None, ops)
            if kind == 'closure':
                return Agg(('closure', rv[2]), None, ops)
            if kind == 'rawptr':
                p = ops[0]
                while isinstance(p, Agg) and len(p.f) == 1:
                    p = p.f[0]
                if isinstance(p, Ptr) and isinstance(ops[1], Lin):
                    return Ptr(p.obj, p.path if p.path and p.path[-1][0] == 'e' else p.path + (('e', Lin(0)),), ops[1])
                return p
            t = self.types[rv[2]]
            if rv[5] is not None:
                f = [UNINIT] * len(t['variants'][rv[4]]['f'])
                f[rv[5]] = ops[0]
                ops = f
            return Agg(self.p.npath(t['path']), rv[4] if t['kind'] == 'enum' else None, ops)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == 'un':
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4], rv[5])
        if k == 'discr':
            v = self.read_path(st, self.resolve(st, fr, rv[1]))
            return self.discr(st, v)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n is None:
                raise Unsupported('repeat')
            if n <= 32:
                return Agg('array', None, [v] * n)
            return self.big_array(st, v, n)
        raise Unsupported('rvalue %s' % k)

    def big_array(self, st, v, n):
        if v == Lin(0) and False:
            return Region(n, zero(n))
        return Seq(n, None, ('const', v))

    def discr(self, st, v):
        if isinstance(v, Sym):
            v = self.expand(st, v)
        if isinstance(v, Agg) and v.var is not None:
            return Lin(v.var)
        if isinstance(v, Lin):
            return v
        if isinstance(v, Opq):
            return atom('discr', (v.key,), 0, 255)
        raise Unsupported('discriminant of %r' % (v,))

    def as_lin(self, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return Lin(1)
        if v is False:
            return Lin(0)
        if isinstance(v, Opq):
            return atom('opq', (v.key,))
        return None

    def opq_int(self, st, name, args, ty):
        r = self.int_range(ty)
        lo, hi = r if r else (None, None)
        return atom(name, args, lo, hi)

    def binop(self, st, op, a, b, ty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        t = self.types[ty]
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        if t['k'] == 'bool':
            if op == 'BitAnd':
                return f_and(a, b)
            if op == 'BitOr':
                return f_or(a, b)
            if op == 'BitXor':
                if a is True:
                    return f_not(b)
                if b is True:
                    return f_not(a)
                if a is False:
                    return b
                if b is False:
                    return a
                return f_or(f_and(a, f_not(b)), f_and(f_not(a), b))
        x, y = self.as_lin(a), self.as_lin(b)
        if x is None or y is None:
            raise Unsupported('%s of %r and %r' % (op, a, b))
        if t['k'] not in ('int', 'char'):
            raise Unsupported('%s on %s' % (op, t['k']))
        lo, hi = self.int_range(ty)
        if op.endswith('WithOverflow'):
            r = self.arith(st, op[:-12], x, y)
            over = f_not(f_and(f_ge(r - lo), f_ge(Lin(hi) - r)))
            return Agg('tuple', None, [r, over])
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = self.arith(st, op.replace('Unchecked', ''), x, y)
            return self.wrap(st, r, ty)
        if op in ('Div', 'Rem'):
            yc = st.canon(y)
            if yc.is_const() and yc.c > 0:
                q = self.div(st, x, yc.c)
                return q if op == 'Div' else x - q * yc.c
            return self.opq_int(st, op, (x, y), ty)
        if op in ('Shl', 'ShlUnchecked'):
            yc = st.canon(y)
            if yc.is_const():
                return self.wrap(st, x * (1 << (yc.c % t['bits'])), ty)
            if x.is_const() and x.c == 1:
                return self.pow2(st, yc, t['bits'])
            return self.opq_int(st, 'Shl', (x, y), ty)
        if op in ('Shr', 'ShrUnchecked'):
            yc = st.canon(y)
            if yc.is_const():
                return self.floordiv(st, x, 1 << (yc.c % t['bits']))
            if st.decide(f_ge(x)) is True:
                r = self.opq_int(st, 'Shr', (x, y), ty)
                return r
            return self.opq_int(st, 'Shr', (x, y), ty)
        if op == 'BitXor' and st.facts.ent_ge(x) and st.facts.ent_ge(y):
            # an even number and its successor differ in the last bit only
            for u, v in ((x, y), (y, x)):
                if st.facts.ent_eq(v - u - 1) and st.facts.ent_eq(u - pos_div(st.canon(u), 2) * 2):
                    return Lin(1)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, op, st.canon(x), st.canon(y), ty)
        if op == 'Cmp':
            if st.must(f_eq(x - y)):
                return Agg('std::cmp::Ordering', 1, ())
            if st.must(f_ge(x - y)):
                return Agg('std::cmp::Ordering', 2, ())
            return Agg('std::cmp::Ordering', 0, ())
        raise Unsupported('binop %s' % op)

    def pow2(self, st, e, bits):
        return atom('pow2', (e,), 1, 1 << (bits - 1))

    def arith(self, st, op, x, y):
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        return st.canon(x) * st.canon(y)

    def div(self, st, x, c):
        """Truncating division by a positive constant, using the known sign."""
        x = st.canon(x)
        if st.decide(f_ge(x)) is True:
            return pos_div(x, c)
        if st.decide(f_ge(-x)) is True:
            return -pos_div(-x, c)
        return div_atom(x, c)

    def floordiv(self, st, x, c):
        x = st.canon(x)
        if st.decide(f_ge(x)) is True:
            return pos_div(x, c)
        if st.decide(f_ge(-x - 1)) is True:
            return -pos_div(-x + (c - 1), c)
        raise Split(f_ge(x))

    def bitop(self, st, op, x, y, ty):
        if x.is_const() and y.is_const():
            f = {'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__}[op]
            return Lin(f(x.c, y.c))
        if x.is_const():
            x, y = y, x
        if y.is_const():
            c = y.c
            if op == 'BitAnd' and c >= 0 and (c & (c + 1)) == 0 and st.decide(f_ge(x)) is True:
                return x - pos_div(x, c + 1) * (c + 1)
            if c == 0:
                return Lin(0) if op == 'BitAnd' else x
            if c > 0 and c & (c - 1) == 0 and st.decide(f_ge(x)) is True:
                # a single bit
                b = pos_div(x, c) - pos_div(x, 2 * c) * 2
                return {'BitXor': x + c - b * (2 * c), 'BitOr': x + c - b * c, 'BitAnd': b * c}[op]
        if repr(y) < repr(x):
            x, y = y, x
        lo, hi = self.int_range(ty)
        if op == 'BitAnd':
            lx, hx = st.facts.bounds(x)
            ly, hy = st.facts.bounds(y)
            for l_, h_ in ((lx, hx), (ly, hy)):
                if l_ is not None and l_ >= 0 and h_ is not None:
                    lo = 0
                    hi = min(hi, h_)
        elif lo == 0:
            _, hx = st.facts.bounds(x)
            _, hy = st.facts.bounds(y)
            if hx is not None and hy is not None:
                hi = min(hi, (1 << max(hx, hy).bit_length()) - 1)
        return atom(op, (x, y), lo, hi)

    def wrap(self, st, r, ty):
        lo, hi = self.int_range(ty)
        r = st.canon(r)
        if r.is_const():
            n = hi - lo + 1
            return Lin((r.c - lo) % n + lo)
        if st.decide(f_and(f_ge(r - lo), f_ge(Lin(hi) - r))) is True:
            return r
        return atom('wrap', (r, lo, hi), lo, hi)

    def unop(self, st, op, a, ty):
        if op == 'Not':
            if a is True or a is False or (isinstance(a, tuple)):
                return f_not(a)
            lo, hi = self.int_range(ty)
            if lo < 0:
                return -a - 1
            return Lin(hi) - a
        if op == 'Neg':
            return -a
        if op == 'PtrMetadata':
            if isinstance(a, Ptr):
                if a.meta is None:
                    v = self.read_path(st, a)
                    if isinstance(v, (Seq, Region)):
                        return v.n
                    if isinstance(v, Agg):
                        return Lin(len(v.f))
                    return UNIT
                return a.meta
        raise Unsupported('unop %s of %r' % (op, a))

    def compare(self, st, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.cmp_ptr(st, op, a, b)
        if (isinstance(a, (bool, tuple))) and isinstance(b, (bool, tuple)):
            e = f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
            if op == 'Eq':
                return e
            if op == 'Ne':
                return f_not(e)
            if op == 'Lt':
                return f_and(f_not(a), b)
            if op == 'Gt':
                return f_and(a, f_not(b))
        if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and not a.f:
            return a == b if op == 'Eq' else a != b
        x, y = self.as_lin(a), self.as_lin(b)
        if x is None or y is None:
            raise Unsupported('compare %s %r %r' % (op, a, b))
        d = x - y
        if op == 'Eq':
            return f_eq(d)
        if op == 'Ne':
            return f_not(f_eq(d))
        if op == 'Lt':
            return f_ge(-d - 1)
        if op == 'Le':
            return f_ge(-d)
        if op == 'Gt':
            return f_ge(d - 1)
        return f_ge(d)

    def cmp_ptr(self, st, op, a, b):
        same = a.base() == b.base()
        if not same and a.base()[0] == b.base()[0]:
            same = None
        if same is False:
            # distinct allocations; order unknown
            if op == 'Eq':
                return False
            if op == 'Ne':
                return True
            return ('op', ('ptrcmp', op, a, b))
        if same is None:
            return ('op', ('ptrcmp', op, a, b))
        d = a.off() - b.off()
        return {'Eq': f_eq(d), 'Ne': f_not(f_eq(d)), 'Lt': f_ge(-d - 1), 'Le': f_ge(-d), 'Gt': f_ge(d - 1), 'Ge': f_ge(d)}[op]

    def ptr_add(self, st, p, k):
        while isinstance(p, Agg) and len(p.f) == 1:
            p = p.f[0]
        if not isinstance(p, Ptr):
            raise Unsupported('offset of %r' % (p,))
        return p.add(k)

    def cast(self, st, kind, v, ty, detail, fty):
        t = self.types[ty]
        if kind == 'IntToInt':
            if v is True:
                v = Lin(1)
            elif v is False:
                v = Lin(0)
            elif isinstance(v, tuple):
                if st.must(v):
                    return Lin(1)
                return Lin(0)
            if isinstance(v, Agg) and v.var is not None and not v.f:
                v = Lin(self.enum_value(v, fty))
            if not isinstance(v, Lin):
                v = self.as_lin(v)
            if t['k'] == 'char':
                return v
            return self.wrap(st, v, ty)
        if kind == 'PtrToPtr':
            if isinstance(v, Ptr):
                ft = self.types[fty]
                to = self.types[t['to']] if t['k'] in ('ref', 'ptr') else None
                if to is not None and to['k'] not in ('slice', 'str', 'dyn') and v.meta is not None:
                    return Ptr(v.obj, v.path, None)
            return v
        if kind == 'Transmute':
            return self.transmute(st, v, ty, fty)
        if kind == 'PointerCoercion':
            if 'Unsize' in detail:
                return self.unsize(st, v, ty, fty)
            if 'ClosureFnPointer' in detail or 'ReifyFnPointer' in detail:
                return v
            return v
        if kind in ('PointerExposeProvenance', 'PointerWithExposedProvenance'):
            if isinstance(v, Ptr):
                return atom('addr', (v.base(),), 1, 1 << 62) + v.off()
            return v
        raise Unsupported('cast %s' % kind)

    def enum_value(self, v, fty):
        t = self.types[fty]
        d = t['variants'][v.var].get('d')
        return d if d is not None else v.var

    def transmute(self, st, v, ty, fty):
        t = self.types[ty]
        f = self.types[fty]
        if t['k'] in ('ref', 'ptr', 'other') or f['k'] in ('other',):
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            return v
        if t['k'] == 'adt' and t['kind'] == 'struct' and isinstance(v, (Ptr, Lin)):
            if self.p.npath(t['path']) in ('std::ptr::NonNull', 'core::ptr::NonNull', 'std::ptr::Unique'):
                return v
            return v
        if t['k'] == 'int' and isinstance(v, Lin) and f['k'] == 'int':
            lo, hi = self.int_range(ty)
            if st.decide(f_and(f_ge(v - lo), f_ge(Lin(hi) - v))) is True:
                return v
            return atom('transm', (v, ty), lo, hi)
        if t['k'] == 'char' and isinstance(v, Lin):
            return v
        if t == f:
            return v
        if isinstance(v, Agg) and t['k'] == 'adt':
            return v
        return Opq(('transmute', v, ty))

    def unsize(self, st, v, ty, fty):
        t = self.types[ty]
        f = self.types[fty]
        if t['k'] in ('ref', 'ptr') and f['k'] in ('ref', 'ptr'):
            to = self.types[t['to']]
            fr = self.types[f['to']]
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if to['k'] == 'slice' and fr['k'] == 'array':
                return Ptr(v.obj, v.path + (('e', Lin(0)),), Lin(fr['len']))
            if to['k'] == 'dyn':
                if fr['k'] == 'dyn':
                    return v        # the object behind it stays the same
                return Ptr(v.obj, v.path, ('vt', f['to']))
        return v

    # ------------------------------------------------------------ execution
    def call_key(self, st, key, args):
        """Execute a body; list of (state, value)."""
        b = self.p.bodies.get(key)
        if b is None:
            raise Unsupported('no body %s' % key)
        return self.exec_body(st, b, args)

    def exec_body(self, st, b, args):
        self.analysed.add(b.key)
        self.calls += 1
        if self.depth > 120:
            raise Unsupported('recursion in %s' % b.npath)
        self.depth += 1
        st.nf += 1
        fr = st.nf
        if b.spread is not None:
            # rust-call ABI: the last argument is spread into a tuple local
            n = b.spread - 1
            args = list(args[:n]) + [Agg('tuple', None, args[n:])]
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
        outs = []
        try:
            self.stack.append([b, b.line, fr])
            outs = self.run(b, fr, [(st, 0, {})])
        finally:
            self.stack.pop()
            self.depth -= 1
        res = []
        for s in outs:
            v = s.mem.get(('L', fr, 0), UNIT)
            if v == UNINIT:
                v = UNIT
            if isinstance(v, Sym):
                v = self.load_obj(s, ('L', fr, 0))
            for o in [o for o in s.mem if o[0] == 'L' and o[1] == fr]:
                del s.mem[o]
            res.append((s, v))
        if len(res) > 1 and not self.no_merge:
            res = self.merge(res)
        return res

    def merge(self, res):
        groups = {}
        for s, v in res:
            self.gc(s, v)
            try:
                k = (v, frozenset(s.mem.items()), s.ev)
                h = hash(k)
            except TypeError:
                k = id(s)
            groups.setdefault(k, []).append((s, v))
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            s0, v0 = g[0]
            for s1, _ in g[1:]:
                s0.facts = join_facts(s0.facts, s1.facts)
                s0.dec = {x: y for x, y in s0.dec.items() if s1.dec.get(x) == y}
                s0.nf = max(s0.nf, s1.nf)
                s0.na = max(s0.na, s1.na)
            out.append((s0, v0))
        return out

    def gc(self, st, v):
        """Drop unreachable heap objects."""
        live = set()
        work = [v]
        for o, x in st.mem.items():
            if o[0] != 'H':
                live.add(o)
                work.append(x)
        seen = set()
        while work:
            x = work.pop()
            if isinstance(x, Ptr):
                if x.obj not in live:
                    live.add(x.obj)
                    if x.obj in st.mem:
                        work.append(st.mem[x.obj])
            elif isinstance(x, VecV):
                if x.obj not in live:
                    live.add(x.obj)
                    if x.obj in st.mem:
                        work.append(st.mem[x.obj])
            elif isinstance(x, Agg):
                work.extend(x.f)
            elif isinstance(x, Seq):
                if x.items:
                    work.extend(x.items)
                work.extend(b for _, b in x.w)
                if x.base:
                    work.extend(y for y in x.base if isinstance(y, _V_TYPES))
        dead = [o for o in st.mem if o[0] == 'H' and o not in live]
        for o in dead:
            del st.mem[o]

    def run(self, b, fr, work, stop=None):
        """Run until return. work: list of (state, block, visit counts). Returns the returning states.
        `stop(b, state, block)` may consume a state arriving at a block (returns True)."""
        outs = []
        headers = b.loop_headers()
        top = self.stack[-1]
        while work:
            st, bb, vis = work.pop()
            if len(work) + len(outs) > self.max_states:
                raise Unsupported('too many states in %s' % b.npath)
            if stop is not None and stop(st, bb):
                continue
            if bb in headers:
                vis = dict(vis)
                c = vis.get(bb, 0) + 1
                vis[bb] = c
                if self.loop_hook is not None:
                    r = self.loop_hook(self, b, fr, st, bb, c, vis)
                    if r is not None:
                        work.extend(r)
                        continue
                if c > self.unroll:
                    raise Unsupported('loop at %s not bounded' % b.where(self.block_line(b, bb)))
            # statements
            blk = b.blocks[bb]
            states = [(st, 0)]
            done = []
            while states:
                s, i = states.pop()
                stm = blk['s']
                ok = True
                while i < len(stm):
                    self.steps += 1
                    x = stm[i]
                    if x[0] == '=':
                        top[1] = x[3]
                    try:
                        self.stmt(s, fr, x, b)
                    except Split as e:
                        for s2 in self.fork(s, e.f):
                            states.append((s2, i))
                        ok = False
                        break
                    except Diverge:
                        ok = False
                        break
                    i += 1
                if ok:
                    done.append(s)
            if self.steps > self.step_limit:
                raise Unsupported('step limit')
            if time.process_time() > self.deadline:
                raise Unsupported('time limit')
            while done:
                s = done.pop()
                try:
                    r = self.term(s, fr, blk['t'], b, outs)
                except Split as e:
                    done.extend(self.fork(s, e.f))
                    continue
                except Diverge:
                    continue
                for s2, nb in r:
                    work.append((s2, nb, vis))
        return outs

    def block_line(self, b, bb):
        blk = b.blocks[bb]
        for x in blk['s']:
            if x[0] == '=':
                return x[3]
        t = blk['t']
        if t[0] == 'call':
            return t[5]
        if t[0] == 'switch':
            return t[5]
        return b.line

    def fork(self, s, f):
        a = s.copy().assume(f, True)
        c = s.assume(f, False)
        return a + c

    def stmt(self, st, fr, x, b):
        if x[0] == '=':
            v = self.rvalue(st, fr, x[2], b)
            pl = x[1]
            if len(pl) == 1:
                st.mem[('L', fr, pl[0])] = v
            else:
                self.write_path(st, self.resolve(st, fr, pl), v)
        elif x[0] == 'setd':
            p = self.resolve(st, fr, x[1])
            v = self.read_path(st, p)
            f = v.f if isinstance(v, Agg) else ()
            self.write_path(st, p, Agg('enum', x[2], f))
        elif x[0] == 'cno':
            src = self.operand(st, fr, x[1])
            dst = self.operand(st, fr, x[2])
            n = self.operand(st, fr, x[3])
            self.mem_copy(st, src, dst, n)

    def mem_copy(self, st, src, dst, n):
        while isinstance(src, Agg) and len(src.f) == 1:
            src = src.f[0]
        while isinstance(dst, Agg) and len(dst.f) == 1:
            dst = dst.f[0]
        r = self.region_at(st, src.base())
        d = self.region_at(st, dst.base())
        if isinstance(r, Region) and isinstance(d, Region):
            c = self.get_content(st, src.base(), src.off(), n)
            self.put_content(st, dst.base(), dst.off(), c)
            return
        n = st.canon(n)
        if n.is_const() and n.c <= 64:
            vals = [self.read_path(st, src.add(i)) for i in range(n.c)]
            for i, v in enumerate(vals):
                self.write_path(st, dst.add(i), v)
            return
        raise Unsupported('memory copy')

    def term(self, st, fr, t, b, outs):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'ret':
            outs.append(st)
            return []
        if k == 'switch':
            self.stack[-1][1] = t[5]
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t)
        if k == 'drop':
            return [(st, t[2])]
        if k == 'assert':
            self.stack[-1][1] = t[6]
            c = self.operand(st, fr, t[1])
            f = c if t[2] else f_not(c)
            if isinstance(f, Opq):
                return [(st, t[5])]
            if t[3] in ('NullPointerDereference', 'MisalignedPointerDereference'):
                return [(st, t[5])]     # every access is bounded separately
            return [(s, t[5]) for s in self.require(st, f, 'panic', t[3])]
        if k == 'call':
            return self.call_term(st, fr, t, b)
        if k == 'unreachable':
            return []
        raise Unsupported('terminator %s' % k)

    def switch(self, st, v, t):
        if isinstance(v, (bool,)) or (isinstance(v, tuple)):
            # boolean: value 0 is false
            tgt = {}
            for val, nb in t[3]:
                tgt[val] = nb
            fb = tgt.get(0, t[4])
            tb = tgt.get(1, t[4])
            d = st.decide(v)
            if d is True:
                return [(st, tb)]
            if d is False:
                return [(st, fb)]
            if self.on_branch is not None:
                self.on_branch(self, st, v)
            s2 = st.copy()
            out = [(s, tb) for s in st.assume(v, True)]
            out += [(s, fb) for s in s2.assume(v, False)]
            return out
        if isinstance(v, Opq):
            v = atom('opq', (v.key,))
        v = st.canon(v)
        if v.is_const():
            for val, nb in t[3]:
                if val == v.c:
                    return [(st, nb)]
            return [(st, t[4])] if t[4] is not None else []
        if self.on_branch is not None:
            self.on_branch(self, st, v)
        out = []
        cur = [st]
        for val, nb in t[3]:
            nxt = []
            for s in cur:
                d = s.decide(f_eq(v - val))
                if d is True:
                    out.append((s, nb))
                elif d is False:
                    nxt.append(s)
                else:
                    s2 = s.copy()
                    out.extend((x, nb) for x in s.assume(f_eq(v - val), True))
                    nxt.extend(s2.assume(f_eq(v - val), False))
            cur = nxt
        if t[4] is not None:
            out.extend((s, t[4]) for s in cur)
        return out

    def call_term(self, st, fr, t, b):
        callee, ops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        self.stack[-1][1] = line
        args = [self.operand(st, fr, o) for o in ops]
        top = self.stack[-1]
        rs = self.call(st, callee, args, t[6], t[7], fr)
        top[1] = line
        out = []
        if target is None:
            return out
        for s, v in rs:
            if len(dest) == 1:
                s.mem[('L', fr, dest[0])] = v
            else:
                self.write_path(s, self.resolve(s, fr, dest), v)
            out.append((s, target))
        return out

    def call(self, st, callee, args, argtys=None, destty=None, fr=None):
        """Call a resolved callee; list of (state, value)."""
        kind = callee.get('kind')
        if kind == 'ptr':
            f = self.operand(st, fr, callee['op']) if 'op' in callee else None
            raise Unsupported('call through a pointer')
        path = self.p.npath(callee.get('rpath') or callee['path'])
        dpath = self.p.npath(callee['path'])
        for key in (path, dpath):
            h = self.hooks.get(key)
            if h is not None:
                r = h(self, st, args, callee, destty)
                if r is not None:
                    return r if isinstance(r, list) else [(st, r)]
        from . import models
        h = models.MODELS.get(path) or models.MODELS.get(dpath)
        if h is not None:
            r = h(self, st, args, callee, destty)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        r = models.pattern(self, st, path, dpath, args, callee, destty)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        if kind in ('unresolved', 'virtual') or (kind == 'shim'):
            r = self.dispatch(st, callee, path, args, argtys, destty)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        key = callee.get('key')
        if key is not None and key in self.p.bodies:
            bd = self.p.bodies[key]
            if callee.get('trait', '') in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce') and '{closure' in key.split('::')[-1]:
                return self.call_closure(st, bd, args)
            return self.exec_body(st, bd, args)
        return self.unknown_call(st, path, args, callee, destty)

    def call_closure(self, st, bd, args):
        """Closure body: (self, args...) with the arguments untupled."""
        slf = args[0]
        tup = args[1]
        t1 = self.types[bd.locals[1][0]]
        if t1['k'] in ('ref', 'ptr') and not isinstance(slf, Ptr):
            slf = Ptr(self.new_obj(st, slf))
        elif t1['k'] not in ('ref', 'ptr') and isinstance(slf, Ptr):
            slf = self.read_path(st, slf)
        return self.exec_body(st, bd, [slf] + list(tup.f))

    def call_value(self, st, f, args):
        """Call a callable value with the given arguments."""
        if isinstance(f, Ptr):
            f2 = self.read_path(st, f)
        else:
            f2 = f
        if isinstance(f2, FnV):
            c = f2.callee
            return self.call(st, c, args, None, None)
        if isinstance(f2, Agg) and isinstance(f2.tag, tuple) and f2.tag[0] == 'closure':
            t = self.types[f2.tag[1]]
            bd = self.p.bodies.get(t['key'])
            if bd is None:
                raise Unsupported('closure body')
            return self.call_closure(st, bd, [f, Agg('tuple', None, args)])
        if isinstance(f2, FnSym):
            h = self.hooks.get(('fn', f2.name)) or self.hooks.get(('fn', None))
            if h is not None:
                r = h(self, st, args, f2)
                return r if isinstance(r, list) else [(st, r)]
        raise Unsupported('call of %r' % (f2,))

    def dispatch(self, st, callee, path, args, argtys, destty):
        tr = callee.get('trait', '')
        name = callee.get('name')
        if tr in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce'):
            return self.call_value(st, args[0], list(args[1].f))
        if callee.get('kind') == 'virtual':
            p = args[0]
            if isinstance(p, Ptr) and isinstance(p.meta, tuple) and p.meta[0] == 'vt':
                t = self.types[p.meta[1]]
                if t['k'] == 'adt':
                    want = self.p.npath(t['path'])
                    for bd in self.p.bodies.values():
                        if bd.d.get('impl_trait') and self.p.npath(bd.d['impl_trait']) == self.p.npath(tr) and bd.d['name'] == name:
                            st_ = self.types[bd.d['impl_self']]
                            if st_['k'] == 'adt' and self.p.npath(st_['path']) == want and not bd.d['generic']:
                                return self.exec_body(st, bd, [Ptr(p.obj, p.path)] + list(args[1:]))
                # generic adapters over dyn iterators are modelled elsewhere
                h = self.hooks.get(('virtual', name))
                if h:
                    return h(self, st, args, callee, destty)
        if tr == 'std::clone::Clone' and name == 'clone':
            return self.clone_val(st, self.read_path(st, args[0]))
        return None

    def clone_val(self, st, v):
        if isinstance(v, VecV):
            o = self.new_obj(st, None)
            src = self.load_obj(st, v.obj)
            if isinstance(src, Seq):
                src = Seq(src.n, tuple(self.clone_val(st, x) for x in src.items) if src.items is not None else None, src.base,
                          tuple((i, self.clone_val(st, x)) for i, x in src.w))
            st.mem[o] = src
            return VecV(o)
        if isinstance(v, Agg):
            return Agg(v.tag, v.var, [self.clone_val(st, self.expand(st, x) if isinstance(x, Sym) else x) for x in v.f])
        return v

    def unknown_call(self, st, path, args, callee, destty):
        self.unknown[path] = self.unknown.get(path, 0) + 1
        self.notes.append('unmodelled call %s in %s' % (path, self.stack[-1][0].npath if self.stack else '?'))
        st.na += 1
        if destty is not None:
            t = self.types[destty]
            if t['k'] == 'never':
                return []
            return [(st, self.sym(st, destty, ('ret', path, st.na)))]
        return [(st, Opq(('ret', path, st.na)))]


def pos_div(x, c):
    """floor(x / c) for x known to be >= 0 in the current state."""
    if c == 1:
        return x
    if x.is_const():
        return Lin(x.c // c)
    if all(k % c == 0 for _, k in x.t):
        return Lin(x.c // c, tuple((i, k // c) for i, k in x.t))
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        A = ATOMS[x.t[0][0]]
        if A.kind == 'pdiv':
            return pos_div(A.args[0], A.args[1] * c)
    lo, hi = static_bounds(x)
    return atom('pdiv', (x, c), 0, None if hi is None else max(0, hi // c), lambda q: [x - q * c, q * c + (c - 1) - x])


def _trit_piece(v):
    """Piece for a stored trit value that is itself a trit of some content."""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        A = ATOMS[v.t[0][0]]
        if A.kind == 'trit':
            return (Lin(1), A.args[0], A.args[1], A.args[2])
    if isinstance(v, Lin) and v.is_const() and v.c == 0:
        return (Lin(1), 'zero', None, Lin(0))
    return None


def join_facts(a, b):
    """Facts entailed by both."""
    f = Facts()
    cand = []
    for x in (a, b):
        cand.extend(x.ge)
        for i, e in x.sub.items():
            d = Lin.of(i) - e
            cand.append(d)
            cand.append(-d)
    ids = set(a.lo) | set(b.lo) | set(a.hi) | set(b.hi)
    for i in ids:
        A = ATOMS[i]
        la, lb = a.lo.get(i, A.lo), b.lo.get(i, A.lo)
        if la is not None and lb is not None:
            cand.append(Lin.of(i) - min(la, lb))
        ha, hb = a.hi.get(i, A.hi), b.hi.get(i, A.hi)
        if ha is not None and hb is not None:
            cand.append(Lin(max(ha, hb)) - Lin.of(i))
    for x in cand:
        if a.ent_ge(x) and b.ent_ge(x):
            f.add_ge(x)
    for n in a.ne:
        if b.ent_ne(n):
            f.add_ne(n)
    return f
