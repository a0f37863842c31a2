"""Evaluator of MIR with known control flow and abstract scalars.

Loop counters, indices and sizes are known numbers; the data (coefficients, trits, bit vectors) are values of an
abstract domain supplied by the client.  A branch on abstract data forks the state.  Aggregates are immutable
Python values; writing rebuilds the path to the written place."""
from .interp import Unsupported


class A:
    """Aggregate: struct, tuple, array, enum value."""
    __slots__ = ('var', 'f')

    def __init__(self, var, f):
        self.var = var
        self.f = f

    def __eq__(self, o):
        return isinstance(o, A) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, len(self.f)))

    def __repr__(self):
        return 'A(%s,%r)' % (self.var, self.f[:6])


class R:
    """Pointer: a cell, a path of indices in it, and the metadata (length) of an unsized pointee."""
    __slots__ = ('cell', 'path', 'meta')

    def __init__(self, cell, path=(), meta=None):
        self.cell = cell
        self.path = path
        self.meta = meta

    def _k(self):
        return (self.cell, self.path, self.meta)

    def __eq__(self, o):
        return isinstance(o, R) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())

    def __repr__(self):
        return 'R%r' % (self._k(),)


class Fn:
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee


class Cond:
    """An undecided condition of the domain."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Panic(Exception):
    pass


UNIT = A(None, ())
UNINIT = None


class St:
    __slots__ = ('cells', 'frames', 'n', 'cond', 'ret', 'panic')

    def copy(self):
        s = St()
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.n = self.n
        s.cond = dict(self.cond)
        s.ret = self.ret
        s.panic = self.panic
        return s


class Fr:
    __slots__ = ('b', 'base', 'bb', 'dest')
    native = False

    def copy(self):
        f = Fr()
        f.b, f.base, f.bb, f.dest = self.b, self.base, self.bb, self.dest
        return f


class NFr:
    """Frame of a model that calls back into the program: the pending value and what to do with it."""
    __slots__ = ('pend', 'k', 'dest')
    native = True

    def copy(self):
        f = NFr()
        f.pend, f.k, f.dest = self.pend, self.k, self.dest
        return f


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


class Dom:
    """Abstract scalar domain.  Abstract values are instances of `cls`."""

    def binop(self, ev, st, op, a, b, ty):
        raise Unsupported('abstract %s' % op)

    def unop(self, ev, st, op, a, ty):
        raise Unsupported('abstract %s' % op)

    def cast(self, ev, st, a, ty, fty):
        raise Unsupported('abstract cast')

    def decide(self, ev, st, c):
        """True, False or None for a condition."""
        return None

    def assume(self, ev, st, c, v):
        """Constrain st; returns False when infeasible."""
        return True


class Flat:
    def __init__(self, prog, dom, hooks=None, limit=60000000):
        self.p = prog
        self.dom = dom
        self.hooks = dict(MODELS)
        self.hooks.update(hooks or {})
        self.steps = 0
        self.limit = limit
        self.analysed = set()
        self.calls = 0
        self.asserts = 0
        self.oob_checks = 0
        self.consts = {}
        self.branches = []      # (function, line) of branches on abstract data
        self.paths = {}
        self.max_states = 20000
        self.partial = False

    # ------------------------------------------------------------ states
    def state(self):
        s = St()
        s.cells = {}
        s.frames = []
        s.n = 0
        s.cond = {}
        s.ret = None
        s.panic = None
        return s

    def new(self, st, v):
        st.n += 1
        st.cells[st.n] = v
        return st.n

    def read(self, st, cell, path):
        v = st.cells[cell]
        for i in path:
            v = self.item(v, i)
        return v

    def item(self, v, i):
        if not isinstance(v, A):
            if v is None:
                raise Unsupported('read of uninitialised data')
            raise Unsupported('projection of %r' % (v,))
        if isinstance(v.var, str) or v.var is None and not v.f and not isinstance(i, int):
            raise Unsupported('projection of a modelled value')
        if not 0 <= i < len(v.f):
            if v.var is None and not v.f:
                raise Unsupported('projection of an empty value')
            raise Panic('access outside a value (index %d of %d)' % (i, len(v.f)))
        return v.f[i]

    def mread(self, st, cell, path):
        """As read, through models too."""
        v = st.cells[cell]
        for i in path:
            if not isinstance(v, A) or not 0 <= i < len(v.f):
                raise Unsupported('projection of %r' % (v,))
            v = v.f[i]
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self._set(st.cells[cell], path, 0, val)

    def _set(self, v, path, k, val):
        if k == len(path):
            return val
        i = path[k]
        if v is None:
            v = A(None, [None] * (i + 1))
        if not isinstance(v, A):
            raise Unsupported('write into %r' % (v,))
        f = list(v.f)
        if i >= len(f):
            if v.var is None and k == 0 and len(f) < 8:
                f += [None] * (i + 1 - len(f))
            else:
                raise Panic('write outside a value (index %d of %d)' % (i, len(f)))
        f[i] = self._set(f[i], path, k + 1, val)
        return A(v.var, f)

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """(cell, path, meta) of a MIR place."""
        cell, path, meta = fr.base + pl[0], (), None
        ty = fr.b.locals[pl[0]][0]
        T = self.p.types
        for e in pl[1:]:
            if e == '*':
                v = self.read(st, cell, path)
                if isinstance(v, A) and T[ty].get('box'):
                    while isinstance(v, A):
                        v = v.f[0]
                if not isinstance(v, R):
                    raise Unsupported('dereference of %r' % (v,))
                cell, path, meta = v.cell, v.path, v.meta
                ty = T[ty].get('to') if 'to' in T[ty] else ty
            elif e[0] == 'f':
                path = path + (e[1],)
                ty = e[2]
                meta = None
            elif e[0] == 'i':
                i = st.cells[fr.base + e[1]]
                if not isinstance(i, int):
                    raise Unsupported('index depends on abstract data')
                path, meta = self.elem(st, cell, path, meta, i), None
                ty = T[ty].get('elem')
            elif e[0] == 'ci':
                i = e[1]
                if e[2]:
                    i = self.length(st, cell, path, meta) - i
                path, meta = self.elem(st, cell, path, meta, i), None
                ty = T[ty].get('elem')
            elif e[0] == 'v':
                pass
            else:
                raise Unsupported('projection %r' % (e,))
        return cell, path, meta

    def elem(self, st, cell, path, meta, i):
        if meta is not None:
            # a slice: the path ends at its first element
            self.oob_checks += 1
            if not 0 <= i < meta:
                raise Panic('index %d of %d' % (i, meta))
            return path[:-1] + (path[-1] + i,)
        return path + (i,)

    def length(self, st, cell, path, meta):
        if meta is not None:
            return meta
        return len(self.read(st, cell, path).f)

    # ------------------------------------------------------------ operands, constants
    def operand(self, st, fr, o):
        if 'p' in o:
            c, p, m = self.place(st, fr, o['p'])
            return self.read(st, c, p)
        if 'rc' in o:
            return 1 if 'Overflow' in o['rc'] or 'Ub' in o['rc'] else 0
        k = id(o)
        if k in self.consts:
            return self.fresh_const(st, self.consts[k])
        t = self.p.types[o['c']]
        if 'v' not in o:
            if t['k'] == 'fndef':
                v = Fn(t['callee'])
            else:
                v = UNIT
        else:
            v = self.const(o['v'], t)
        self.consts[k] = v
        return self.fresh_const(st, v)

    def fresh_const(self, st, v):
        if isinstance(v, tuple) and v[0] == 'constref':
            key = ('const', v[2])
            if key not in st.cells:
                st.cells[key] = self.fresh_const(st, v[1])
            x = v[1]
            if v[3]:
                return R(key, (0,), len(x.f))
            return R(key)
        if isinstance(v, A) and any(isinstance(x, tuple) for x in v.f[:4]):
            return A(v.var, [self.fresh_const(st, x) for x in v.f])
        return v

    def const(self, v, t):
        if v is None:
            raise Unsupported('constant')
        if 'int' in v:
            return v['int']
        if 'bool' in v:
            return int(v['bool'])
        if 'zst' in v:
            if t['k'] == 'fndef':
                return Fn(t['callee'])
            if t['k'] == 'closure':
                return A(('closure', self.p.types.index(t)), [])
            if t['k'] == 'array':
                return A(None, [])
            n = len(t['variants'][0]['f']) if t['k'] == 'adt' and t.get('variants') else 0
            return A(0 if t['k'] == 'adt' and t.get('kind') == 'enum' else None, [UNIT] * n)
        if 'arr' in v:
            et = self.p.types[t['elem']]
            return A(None, [self.const(x, et) for x in v['arr']])
        if 'fields' in v:
            if t['k'] == 'tuple':
                ts = t['elems']
            else:
                ts = [f['t'] for f in t['variants'][v.get('variant', 0)]['f']]
            fs = [self.const(x, self.p.types[y]) for x, y in zip(v['fields'], ts)]
            return A(v.get('variant') if t.get('kind') == 'enum' else None, fs)
        if 'ref' in v:
            inner = self.p.types[t['to']]
            sl = inner['k'] == 'slice'
            return ('constref', self.const(v['ref'], inner), id(v), sl)
        if 'str' in v:
            return A('str', [v['str']])
        if t['k'] == 'closure' and not t.get('upvars'):
            return A(('closure', self.p.types.index(t)), [])
        raise Unsupported('constant %r' % (str(v)[:80],))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            c, p, m = self.place(st, fr, rv[1])
            return R(c, p, m)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.p.types[rv[4]])
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            return self.unop(st, rv[1], a, self.p.types[rv[3]])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.p.types[rv[3]], rv[4], self.p.types[rv[5]])
        if k == 'agg':
            fs = [self.operand(st, fr, x) for x in rv[3]]
            if rv[1] == 'adt':
                t = self.p.types[rv[2]]
                if rv[5] is not None:
                    raise Unsupported('union')
                return A(rv[4] if t['kind'] == 'enum' else None, fs)
            if rv[1] in ('array', 'tuple'):
                return A(None, fs)
            if rv[1] == 'closure':
                return A(('closure', rv[2]), fs)
            if rv[1] == 'rawptr':
                if isinstance(fs[0], R):
                    return R(fs[0].cell, fs[0].path, fs[1] if isinstance(fs[1], int) else None)
            raise Unsupported('aggregate %s' % rv[1])
        if k == 'repeat':
            if rv[2] is None:
                raise Unsupported('array of unknown length')
            return A(None, [self.operand(st, fr, rv[1])] * rv[2])
        if k == 'discr':
            c, p, m = self.place(st, fr, rv[1])
            v = self.read(st, c, p)
            return self.discr(st, v, self.place_ty(fr, rv[1]))
        raise Unsupported('rvalue %s' % k)

    def place_ty(self, fr, pl):
        ty = fr.b.locals[pl[0]][0]
        T = self.p.types
        for e in pl[1:]:
            if e == '*':
                ty = T[ty].get('to', ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = T[ty].get('elem', ty)
        return T[ty]

    def discr(self, st, v, t):
        if isinstance(v, A) and isinstance(v.var, int):
            if t['k'] == 'adt' and t.get('variants'):
                d = t['variants'][v.var].get('d')
                if d is not None:
                    return d
            return v.var
        if isinstance(v, int):
            return v
        raise Unsupported('discriminant of %r' % (v,))

    def binop(self, st, op, a, b, t):
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(op, a, b, t)
        if isinstance(a, R) or isinstance(b, R):
            if op == 'Offset':
                if not isinstance(b, int):
                    raise Unsupported('pointer offset depends on abstract data')
                return self.padd(a, b)
            if op in ('Eq', 'Ne'):
                e = a == b or isinstance(a, R) and isinstance(b, R) and a.cell == b.cell and a.path == b.path
                return int(e == (op == 'Eq'))
            raise Unsupported('pointer %s' % op)
        if a is None or b is None:
            raise Unsupported('operand not initialised')
        return self.dom.binop(self, st, op, a, b, t)

    def padd(self, a, k):
        if not a.path:
            if k == 0:
                return a
            raise Unsupported('pointer arithmetic on a single value')
        return R(a.cell, a.path[:-1] + (a.path[-1] + k,), a.meta)

    def cbin(self, op, a, b, t):
        if t['k'] == 'int':
            bits, sg = t['bits'], t['signed']
        elif t['k'] == 'bool':
            bits, sg = 1, False
        else:
            bits, sg = 64, False
        ov = op.endswith('WithOverflow')
        if ov:
            op = op[:-12]
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op == 'Add':
            r = a + b
        elif op == 'Sub':
            r = a - b
        elif op == 'Mul':
            r = a * b
        elif op in ('Div', 'Rem'):
            if b == 0:
                raise Panic('division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == 'Div' else a - b * q
        elif op == 'BitAnd':
            r = a & b
        elif op == 'BitOr':
            r = a | b
        elif op == 'BitXor':
            r = a ^ b
        elif op == 'Shl':
            r = a << (b & (bits - 1) if bits > 1 else b)
        elif op == 'Shr':
            r = a >> (b & (bits - 1) if bits > 1 else b)
        elif op == 'Eq':
            return int(a == b)
        elif op == 'Ne':
            return int(a != b)
        elif op == 'Lt':
            return int(a < b)
        elif op == 'Le':
            return int(a <= b)
        elif op == 'Gt':
            return int(a > b)
        elif op == 'Ge':
            return int(a >= b)
        else:
            raise Unsupported('operator %s' % op)
        w = wrap(r, bits, sg)
        if ov:
            return A(None, [w, int(w != r)])
        return w

    def unop(self, st, op, a, t):
        if op == 'PtrMetadata':
            if isinstance(a, R):
                return a.meta if a.meta is not None else UNIT
        if isinstance(a, Cond) and op == 'Not':
            return Cond(('not', a.f))
        if isinstance(a, int):
            if op == 'Not':
                return wrap(~a, t['bits'], t['signed']) if t['k'] == 'int' else 1 - a
            if op == 'Neg':
                return wrap(-a, t['bits'], t['signed'])
        if a is None:
            raise Unsupported('operand not initialised')
        return self.dom.unop(self, st, op, a, t)

    def cast(self, st, kind, v, t, detail, fty):
        if kind == 'IntToInt':
            if isinstance(v, int):
                return wrap(v, t['bits'], t['signed']) if t['k'] == 'int' else v
            if isinstance(v, Cond):
                raise Unsupported('number from an abstract condition')
            return self.dom.cast(self, st, v, t, fty)
        if kind == 'PtrToPtr':
            if isinstance(v, R):
                to = self.p.types[t['to']] if 'to' in t else None
                if v.meta is not None and to is not None and to['k'] not in ('slice', 'str', 'dyn'):
                    return R(v.cell, v.path, None)
                return v
        if kind == 'PointerCoercion':
            if 'Unsize' in detail and isinstance(v, R):
                a = self.read(st, v.cell, v.path)
                if isinstance(a, A) and fty['k'] in ('ref', 'ptr') and self.p.types[fty['to']]['k'] == 'array':
                    return R(v.cell, v.path + (0,), len(a.f))
            if 'MutToConstPointer' in detail or 'ArrayToPointer' in detail:
                if isinstance(v, R):
                    if 'ArrayToPointer' in detail:
                        return R(v.cell, v.path + (0,), None)
                    return v
        if kind == 'Transmute':
            return self.transmute(v, t)
        raise Unsupported('cast %s' % kind)

    def transmute(self, v, t):
        """Between a value and transparent wrappers of it."""
        def unwrap(x):
            while isinstance(x, A) and x.var is None and len(x.f) >= 1 and all(y == UNIT for y in x.f[1:]):
                x = x.f[0]
            return x

        def wrapto(x, ty, d=0):
            T = self.p.types[ty] if isinstance(ty, int) else ty
            if T['k'] == 'adt' and T.get('kind') == 'struct' and d < 6:
                fs = T['variants'][0]['f']
                out = []
                for f in fs:
                    ft = self.p.types[f['t']]
                    if ft['k'] == 'adt' and not ft['variants'][0]['f'] or ft['k'] == 'tuple' and not ft['elems']:
                        out.append(UNIT)
                    else:
                        out.append(wrapto(x, f['t'], d + 1))
                return A(None, out)
            return x
        return wrapto(unwrap(v), t)

    # ------------------------------------------------------------ running
    def run(self, st, b, args):
        """Execute body b; list of finished states (ret or panic set)."""
        st.frames = []
        self.push(st, b, args, None)
        work = [st]
        out = []
        while work:
            s = work.pop()
            self.go(s, work, out)
            if len(out) >= self.max_states and work:
                # what was explored so far is returned; the client must not take it for everything
                self.partial = True
                break
        return out

    def push(self, st, b, args, dest):
        if len(st.frames) > 60:
            raise Unsupported('recursion')
        fr = Fr()
        fr.b = b
        fr.base = st.n + 1
        fr.bb = 0
        fr.dest = dest
        n = len(b.locals)
        for i in range(n):
            st.cells[fr.base + i] = None
        st.n += n
        if b.spread is not None:
            fixed = b.spread - 1
            args = list(args[:fixed]) + list(args[fixed].f)
            if len(args) != b.argc:
                args = list(args[:fixed]) + [A(None, args[fixed:])]
        if len(args) != b.argc:
            raise Unsupported('argument count of %s' % b.npath)
        for i, a in enumerate(args):
            st.cells[fr.base + 1 + i] = a
        st.frames.append(fr)
        self.analysed.add(b.key)

    def go(self, st, work, out):
        while True:
            fr = st.frames[-1]
            if fr.native:
                try:
                    r = self.native(st, fr, work)
                except Panic as e:
                    st.panic = '%s in a library function' % e
                    out.append(st)
                    return
                if r == 'dead':
                    return
                continue
            blk = fr.b.blocks[fr.bb]
            try:
                for x in blk['s']:
                    if x[0] == '=':
                        v = self.rvalue(st, fr, x[2])
                        pl = x[1]
                        if len(pl) == 1:
                            st.cells[fr.base + pl[0]] = v
                        else:
                            c, p, m = self.place(st, fr, pl)
                            self.write(st, c, p, v)
                    elif x[0] == 'cno':
                        a, d, n = [self.operand(st, fr, y) for y in x[1:4]]
                        self.copy(st, a, d, n)
                    else:
                        raise Unsupported('statement %s' % x[0])
                self.steps += len(blk['s']) + 1
                if self.steps > self.limit:
                    raise Unsupported('step limit')
                r = self.term(st, fr, blk['t'], work)
            except Panic as e:
                st.panic = '%s in %s' % (e, fr.b.npath)
                out.append(st)
                return
            if r is None:
                continue
            if r == 'done':
                out.append(st)
                return
            if r == 'dead':
                return

    def native(self, st, fr, work):
        r = fr.pend
        self.steps += 1
        if isinstance(r, Br):
            if isinstance(r.c, Cond):
                d = self.branch(st, r.c, work, None)
            else:
                d = bool(r.c)
            if d is None:
                return 'dead'
            fr.pend = (r.t if d else r.e)(self, st)
            return None
        if isinstance(r, Enter):
            fr.k = r.k
            fr.pend = None
            self.push(st, r.body, r.args, None)
            return None
        if fr.k is not None:
            k, fr.k = fr.k, None
            fr.pend = k(self, st, r)
            return None
        st.frames.pop()
        if r is NotImplemented:
            raise Unsupported('iterator without a model')
        dest, nxt = fr.dest
        self.write(st, dest[0], dest[1], r)
        if nxt is None:
            return 'dead'
        st.frames[-1].bb = nxt
        return None

    def apply(self, st, f, args):
        """Call of a function value: an Enter, or a value when a model computes it."""
        ref = f if isinstance(f, R) else None
        fv = self.read(st, f.cell, f.path) if ref is not None else f
        while isinstance(fv, R):
            ref = fv
            fv = self.read(st, fv.cell, fv.path)
        if isinstance(fv, A) and isinstance(fv.var, tuple) and fv.var[0] == 'closure':
            b = self.p.bodies[self.p.types[fv.var[1]]['key']]
            env = fv
            if self.p.types[b.locals[1][0]]['k'] == 'ref':
                env = ref if ref is not None else R(self.new(st, fv))
            if b.spread is not None:
                args = [A(None, args)]
            return Enter(b, [env] + list(args))
        if isinstance(fv, Fn):
            c = fv.callee
            path = self.p.npath(c.get('rpath') or c['path'])
            h = self.hooks.get(path) or self.hooks.get(self.p.npath(c['path']))
            if h is not None:
                r = h(self, st, args, c)
                if r is not NotImplemented:
                    return r
            b = self.p.bodies.get(c.get('key'))
            if b is not None:
                return Enter(b, list(args))
        raise Unsupported('call of %r' % (fv,))

    def copy(self, st, a, d, n):
        if not isinstance(n, int):
            raise Unsupported('copy of unknown length')
        if n == 0:
            return
        vals = [self.read(st, x.cell, x.path) for x in (self.padd(a, i) for i in range(n))]
        for i, v in enumerate(vals):
            y = self.padd(d, i)
            self.write(st, y.cell, y.path, v)

    def branch(self, st, c, work, fr):
        """Truth value of a condition; the other outcome, when possible, is queued."""
        d = self.dom.decide(self, st, c.f)
        if d is not None:
            return d
        self.branches.append((fr.b.npath, fr.bb) if fr is not None else ('a library function', 0))
        o = st.copy()
        # the queued state re-executes the terminator with the condition decided
        if self.dom.assume(self, o, c.f, False):
            f_ok = True
        else:
            f_ok = False
        t_ok = self.dom.assume(self, st, c.f, True)
        if t_ok and f_ok:
            work.append(o)
            return True
        if t_ok:
            return True
        if f_ok:
            st.cond = o.cond
            st.cells = o.cells
            return False
        return None

    def term(self, st, fr, t, work):
        k = t[0]
        if k == 'goto':
            fr.bb = t[1]
            return None
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            if isinstance(v, Cond):
                d = self.branch(st, v, work, fr)
                if d is None:
                    return 'dead'
                v = int(d)
            elif not isinstance(v, int):
                return self.switch_abs(st, fr, v, t, work)
            for x in t[3]:
                if x[0] == v:
                    fr.bb = x[1]
                    return None
            fr.bb = t[4]
            return None
        if k == 'assert':
            self.asserts += 1
            c = self.operand(st, fr, t[1])
            if isinstance(c, Cond):
                d = self.branch(st, c, work, fr)
                if d is None:
                    return 'dead'
                c = int(d)
            elif not isinstance(c, int):
                raise Unsupported('assertion on %r' % (c,))
            if bool(c) != bool(t[2]):
                raise Panic('failed check %s' % t[3])
            fr.bb = t[5]
            return None
        if k == 'ret':
            v = st.cells[fr.base]
            if v is None and self.p.types[fr.b.locals[0][0]]['k'] == 'tuple':
                v = UNIT
            for i in range(len(fr.b.locals)):
                st.cells.pop(fr.base + i, None)
            st.frames.pop()
            if not st.frames:
                st.ret = v
                return 'done'
            up = st.frames[-1]
            if up.native:
                up.pend = v
                return None
            dest, nxt = fr.dest
            self.write(st, dest[0], dest[1], v)
            if nxt is None:
                return 'dead'
            up.bb = nxt
            return None
        if k == 'drop':
            fr.bb = t[2]
            return None
        if k == 'call':
            return self.call(st, fr, t, work)
        if k == 'unreachable':
            return 'dead'
        raise Unsupported('terminator %s' % k)

    def switch_abs(self, st, fr, v, t, work):
        rest = []
        for x in t[3]:
            c = self.dom.binop(self, st, 'Eq', v, x[0], self.p.types[t[2]])
            if isinstance(c, int):
                if c:
                    fr.bb = x[1]
                    return None
                continue
            d = self.dom.decide(self, st, c.f)
            if d is False:
                continue
            if d is True:
                fr.bb = x[1]
                return None
            self.branches.append((fr.b.npath, fr.bb))
            o = st.copy()
            if self.dom.assume(self, o, c.f, True):
                o.frames[-1].bb = x[1]
                work.append(o)
            if not self.dom.assume(self, st, c.f, False):
                return 'dead'
        fr.bb = t[4]
        return None

    def call(self, st, fr, t, work):
        callee = t[1]
        args = [self.operand(st, fr, x) for x in t[2]]
        c, p, m = self.place(st, fr, t[3])
        self.calls += 1
        if callee.get('kind') == 'ptr':
            f = self.operand(st, fr, callee['op'])
            if not isinstance(f, Fn):
                raise Unsupported('call of %r' % (f,))
            callee = f.callee
        if callee.get('kind') == 'ctor':
            par = callee.get('parent')
            raise Unsupported('constructor %s' % par)
        path = self.p.npath(callee.get('rpath') or callee['path'])
        h = self.hooks.get(path) or self.hooks.get(self.p.npath(callee['path']))
        if h is None and not callee.get('rlocal'):
            h = self.hooks[path] = _generic(path)
        if h is not None:
            r = h(self, st, args, callee)
            if r is not NotImplemented:
                if isinstance(r, Enter) and r.k is None:
                    self.push(st, r.body, r.args, ((c, p), t[4]))
                    return None
                if isinstance(r, (Enter, Br)):
                    n = NFr()
                    n.pend, n.k, n.dest = r, None, ((c, p), t[4])
                    st.frames.append(n)
                    return None
                self.write(st, c, p, r)
                if t[4] is None:
                    return 'dead'
                fr.bb = t[4]
                return None
        if callee.get('kind') == 'shim' and callee.get('shim') == 'Clone' or callee.get('name') == 'clone' and callee.get('trait', '').endswith('Clone') and not callee.get('key'):
            self.write(st, c, p, self.read(st, args[0].cell, args[0].path))
            fr.bb = t[4]
            return None
        key = callee.get('key')
        if callee.get('trait', '').startswith(('std::ops::Fn', 'core::ops::Fn')):
            r = self.apply(st, args[0], list(args[1].f))
            if isinstance(r, Enter) and r.k is None:
                self.push(st, r.body, r.args, ((c, p), t[4]))
                return None
            if isinstance(r, (Enter, Br)):
                raise Unsupported('model behind a function value')
            self.write(st, c, p, r)
            fr.bb = t[4]
            return None
        if 'panic' in path or path.startswith('core::panicking') or path.startswith('std::rt::'):
            raise Panic('call of %s' % path)
        if key is None or key not in self.p.bodies:
            raise Unsupported('call of %s' % path)
        self.push(st, self.p.bodies[key], args, ((c, p), t[4]))
        return None


class Enter:
    """Result of a hook: continue in this body."""

    def __init__(self, body, args, k=None):
        self.body = body
        self.args = args
        self.k = k


class Br:
    """Result of a hook: go on with t or e, depending on a condition."""

    def __init__(self, c, t, e):
        self.c = c
        self.t = t
        self.e = e


def bind(ev, st, r, f):
    """Continue with f(ev, st, value) once r is a value."""
    if isinstance(r, Enter):
        k = r.k
        if k is None:
            return Enter(r.body, r.args, f)
        return Enter(r.body, r.args, lambda ev, st, v: bind(ev, st, k(ev, st, v), f))
    if isinstance(r, Br):
        return Br(r.c, lambda ev, st: bind(ev, st, r.t(ev, st), f), lambda ev, st: bind(ev, st, r.e(ev, st), f))
    return f(ev, st, r)


# ------------------------------------------------------------------ models of core functions
def _some(v):
    return A(1, [v])


NONE = A(0, [])


def range_next(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    lo, hi = r.f[0], r.f[1]
    if not (isinstance(lo, int) and isinstance(hi, int)):
        return NotImplemented
    if lo >= hi:
        return NONE
    ev.write(st, a[0].cell, a[0].path, A(r.var, [lo + 1, hi]))
    return _some(lo)


def range_next_back(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    lo, hi = r.f[0], r.f[1]
    if not (isinstance(lo, int) and isinstance(hi, int)):
        return NotImplemented
    if lo >= hi:
        return NONE
    ev.write(st, a[0].cell, a[0].path, A(r.var, [lo, hi - 1]))
    return _some(hi - 1)


def rev_next(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    x = r.f[0]
    if isinstance(x, A) and x.var is None and len(x.f) == 2 and all(isinstance(y, int) for y in x.f):
        if x.f[0] >= x.f[1]:
            return NONE
        ev.write(st, a[0].cell, a[0].path + (0,), A(None, [x.f[0], x.f[1] - 1]))
        return _some(x.f[1] - 1)
    return NotImplemented


def step_next(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    if r.var != 'stepby':
        return NotImplemented
    lo, hi, k = r.f
    if lo >= hi:
        return NONE
    ev.write(st, a[0].cell, a[0].path, A('stepby', [lo + k, hi, k]))
    return _some(lo)


def ident(ev, st, a, callee):
    return a[0]


def sl_iter(ev, st, a, callee):
    if isinstance(a[0], R) and a[0].meta is not None:
        return A('sliter', [a[0], 0, a[0].meta])
    return NotImplemented


def sl_into(ev, st, a, callee):
    return sl_iter(ev, st, a, callee)


def sl_next(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    if not isinstance(r, A) or r.var != 'sliter':
        return NotImplemented
    p, i, n = r.f
    if i >= n:
        return NONE
    ev.write(st, a[0].cell, a[0].path, A('sliter', [p, i + 1, n]))
    q = ev.padd(p, i)
    return _some(R(q.cell, q.path))


def sl_next_back(ev, st, a, callee):
    r = ev.mread(st, a[0].cell, a[0].path)
    if not isinstance(r, A) or r.var != 'sliter':
        return NotImplemented
    p, i, n = r.f
    if i >= n:
        return NONE
    ev.write(st, a[0].cell, a[0].path, A('sliter', [p, i, n - 1]))
    q = ev.padd(p, n - 1)
    return _some(R(q.cell, q.path))


def sub(ref, i):
    return R(ref.cell, ref.path + (i,))


def mset(ev, st, ref, i, x):
    v = ev.mread(st, ref.cell, ref.path)
    f = list(v.f)
    f[i] = x
    ev.write(st, ref.cell, ref.path, A(v.var, f))


def it_next(ev, st, ref, callee=None):
    """next() of an iterator modelled here, or None when it is not."""
    v = ev.mread(st, ref.cell, ref.path)
    if isinstance(v, A):
        if v.var == 'sliter':
            return sl_next(ev, st, [ref], None)
        if v.var == 'stepby':
            return step_next(ev, st, [ref], None)
        if v.var == 'chunks':
            q, i, n, k, exact = v.f
            if i >= n or exact and i + k > n:
                return NONE
            ev.write(st, ref.cell, ref.path, A('chunks', [q, i + k, n, k, exact]))
            x = ev.padd(q, i)
            return _some(R(x.cell, x.path, min(k, n - i)))
        if v.var == 'enum':
            def enum(ev, st, r):
                if r is NotImplemented or r == NONE:
                    return r
                n = ev.mread(st, ref.cell, ref.path).f[1]
                mset(ev, st, ref, 1, n + 1)
                return _some(A(None, [n, r.f[0]]))
            return bind(ev, st, it_next(ev, st, sub(ref, 0)), enum)
        if v.var == 'zip':
            def zip1(ev, st, x):
                if x is NotImplemented or x == NONE:
                    return x
                return bind(ev, st, it_next(ev, st, sub(ref, 1)),
                            lambda ev, st, y: y if y is NotImplemented or y == NONE else _some(A(None, [x.f[0], y.f[0]])))
            return bind(ev, st, it_next(ev, st, sub(ref, 0)), zip1)
        if v.var == 'map':
            return bind(ev, st, it_next(ev, st, sub(ref, 0)),
                        lambda ev, st, x: x if x is NotImplemented or x == NONE else
                        bind(ev, st, ev.apply(st, v.f[1], [x.f[0]]), lambda ev, st, y: _some(y)))
        if v.var == 'copied':
            return bind(ev, st, it_next(ev, st, sub(ref, 0)),
                        lambda ev, st, x: x if x is NotImplemented or x == NONE else
                        _some(ev.read(st, x.f[0].cell, x.f[0].path)))
        if v.var == 'take':
            if v.f[1] <= 0:
                return NONE
            mset(ev, st, ref, 1, v.f[1] - 1)
            return it_next(ev, st, sub(ref, 0))
        if v.var == 'skip':
            def skip(ev, st, x):
                k = ev.mread(st, ref.cell, ref.path).f[1]
                if x is NotImplemented or x == NONE or k == 0:
                    return x
                mset(ev, st, ref, 1, k - 1)
                return bind(ev, st, it_next(ev, st, sub(ref, 0)), skip)
            return bind(ev, st, it_next(ev, st, sub(ref, 0)), skip)
        if v.var == 'chain':
            def chain(ev, st, x):
                if x is NotImplemented or x != NONE:
                    return x
                mset(ev, st, ref, 2, 1)
                return it_next(ev, st, sub(ref, 1))
            if v.f[2]:
                return it_next(ev, st, sub(ref, 1))
            return bind(ev, st, it_next(ev, st, sub(ref, 0)), chain)
        if v.var == 'stepit':
            def step(ev, st, x):
                w = ev.mread(st, ref.cell, ref.path)
                if x is NotImplemented or x == NONE or w.f[2] == 0:
                    mset(ev, st, ref, 2, w.f[1] - 1)
                    return x
                mset(ev, st, ref, 2, w.f[2] - 1)
                return bind(ev, st, it_next(ev, st, sub(ref, 0)), step)
            return bind(ev, st, it_next(ev, st, sub(ref, 0)), step)
        if v.var == 'rev':
            w = v.f[0]
            if isinstance(w, A) and w.var == 'sliter':
                return sl_next_back(ev, st, [R(ref.cell, ref.path + (0,))], None)
            if isinstance(w, A) and w.var is None and len(w.f) == 2 and all(isinstance(y, int) for y in w.f):
                return range_next_back(ev, st, [R(ref.cell, ref.path + (0,))], None)
            if isinstance(w, A) and w.var == 'chunks' and not w.f[4]:
                q, i, n, k, ex = w.f
                if i >= n:
                    return NONE
                z = (n - i) % k or k
                mset(ev, st, sub(ref, 0), 2, n - z)
                x = ev.padd(q, n - z)
                return _some(R(x.cell, x.path, z))
        if v.var is None and len(v.f) == 2 and all(isinstance(y, int) for y in v.f):
            return range_next(ev, st, [ref], None)
    return NotImplemented


def ad_next(ev, st, a, callee):
    return it_next(ev, st, a[0])


ITER = ('sliter', 'stepby', 'chunks', 'enum', 'zip', 'map', 'copied', 'take', 'skip', 'chain', 'stepit', 'rev')


def is_iter(v):
    """A modelled iterator (a range of numbers included)."""
    return isinstance(v, A) and (v.var in ITER or v.var is None and len(v.f) == 2 and
                                 all(isinstance(y, int) for y in v.f))


def wrapper(tag, *more):
    def f(ev, st, a, callee):
        if not is_iter(a[0]):
            return NotImplemented
        return A(tag, [a[0]] + list(a[1:]) + list(more))
    return f


def as_iter(ev, st, b):
    if isinstance(b, R) and b.meta is not None:
        return A('sliter', [b, 0, b.meta])
    if isinstance(b, R):
        v = ev.read(st, b.cell, b.path)
        if isinstance(v, A) and v.var is None and not is_iter(v):
            return A('sliter', [R(b.cell, b.path + (0,)), 0, len(v.f)])
    return b


def two(tag, *more):
    def f(ev, st, a, callee):
        b = as_iter(ev, st, a[1])
        if not is_iter(a[0]) or not is_iter(b):
            return NotImplemented
        return A(tag, [a[0], b] + list(more))
    return f


zip_ = two('zip')
rev_ = wrapper('rev')


def step_by(ev, st, a, callee):
    if is_iter(a[0]) and a[0].var is None and isinstance(a[1], int):
        return A('stepby', [a[0].f[0], a[0].f[1], a[1]])
    if is_iter(a[0]) and isinstance(a[1], int) and a[1] > 0:
        return A('stepit', [a[0], a[1], 0])
    return NotImplemented


def stored(ev, st, x):
    """Reference to an iterator given by value or by reference."""
    if isinstance(x, R):
        return x if is_iter(ev.mread(st, x.cell, x.path)) else None
    if is_iter(x):
        return R(ev.new(st, x))
    return None


def loop(ev, st, it, item, end):
    """Runs the iterator: item(ev, st, x, again) decides about going on, end(ev, st) gives the final value."""
    def go(ev, st):
        while True:
            r = it_next(ev, st, it)
            if isinstance(r, (Enter, Br)):
                return bind(ev, st, r, got)
            z = got(ev, st, r, sync=True)
            if z is not AGAIN:
                return z

    def got(ev, st, r, sync=False):
        if r is NotImplemented:
            raise Unsupported('iterator without a model')
        if r == NONE:
            return end(ev, st)
        z = item(ev, st, r.f[0], go)
        if z is AGAIN and not sync:
            return go(ev, st)
        return z
    return go(ev, st)


class _Again:
    pass


AGAIN = _Again()


def quant(stop):
    """any (stop at true), all (stop at false)."""
    def f(ev, st, a, callee):
        it = stored(ev, st, a[0])
        if it is None:
            return NotImplemented

        def item(ev, st, x, go):
            def after(ev, st, v):
                if isinstance(v, int):
                    return stop if bool(v) == bool(stop) else go(ev, st)
                hit = lambda ev, st: stop
                return Br(v, hit, go) if stop else Br(v, go, hit)
            return bind(ev, st, ev.apply(st, a[1], [x]), after)
        return loop(ev, st, it, item, lambda ev, st: 1 - stop)
    return f


def fold(ev, st, a, callee):
    it = stored(ev, st, a[0])
    if it is None:
        return NotImplemented
    acc = ev.new(st, a[1])

    def item(ev, st, x, go):
        def after(ev, st, v):
            st.cells[acc] = v
            return go(ev, st)
        return bind(ev, st, ev.apply(st, a[2], [st.cells[acc], x]), after)
    return loop(ev, st, it, item, lambda ev, st: st.cells[acc])


def for_each(ev, st, a, callee):
    it = stored(ev, st, a[0])
    if it is None:
        return NotImplemented

    def item(ev, st, x, go):
        return bind(ev, st, ev.apply(st, a[1], [x]), lambda ev, st, v: go(ev, st))
    return loop(ev, st, it, item, lambda ev, st: UNIT)


def count(ev, st, a, callee):
    it = stored(ev, st, a[0])
    if it is None:
        return NotImplemented
    acc = ev.new(st, 0)

    def item(ev, st, x, go):
        st.cells[acc] += 1
        return AGAIN
    return loop(ev, st, it, item, lambda ev, st: st.cells[acc])


def eq_chain(ev, st, ps):
    """Are the pairs of scalars equal?"""
    if not ps:
        return 1
    x, y = ps[0]
    if isinstance(x, A) and isinstance(y, A) and x.var is None and y.var is None and len(x.f) == len(y.f):
        return eq_chain(ev, st, list(zip(x.f, y.f)) + ps[1:])
    if isinstance(x, int) and isinstance(y, int):
        return eq_chain(ev, st, ps[1:]) if x == y else 0
    if isinstance(x, (A, R)) or isinstance(y, (A, R)) or x is None or y is None:
        raise Unsupported('comparison of %r and %r' % (x, y))
    c = ev.dom.binop(ev, st, 'Eq', x, y, {'k': 'int', 'bits': 64, 'signed': True, 's': '?'})
    if isinstance(c, int):
        return eq_chain(ev, st, ps[1:]) if c else 0
    return Br(c, lambda ev, st: eq_chain(ev, st, ps[1:]), lambda ev, st: 0)


def sl_eq(neg):
    def vals(ev, st, r):
        while isinstance(r, R) and r.meta is None:
            v = ev.read(st, r.cell, r.path)
            if not isinstance(v, R):
                return list(v.f) if isinstance(v, A) and v.var is None else None
            r = v
        if isinstance(r, R):
            return [ev.read(st, x.cell, x.path) for x in (ev.padd(r, i) for i in range(r.meta))]
        return None

    def f(ev, st, a, callee):
        x, y = vals(ev, st, a[0]), vals(ev, st, a[1])
        if x is None or y is None:
            return NotImplemented
        if any(isinstance(v, (A, R)) or v is None for v in x + y):
            return NotImplemented
        flip = lambda ev, st, v: 1 - v if neg else v
        if len(x) != len(y):
            return flip(ev, st, 0)
        ps = list(zip(x, y))

        def at(i):
            def g(ev, st):
                for j in range(i, len(ps)):
                    u, v = ps[j]
                    if isinstance(u, int) and isinstance(v, int):
                        if u != v:
                            return flip(ev, st, 0)
                        continue
                    c = ev.dom.binop(ev, st, 'Eq', u, v, {'k': 'int', 'bits': 64, 'signed': True, 's': '?'})
                    if isinstance(c, int):
                        if not c:
                            return flip(ev, st, 0)
                        continue
                    return Br(c, at(j + 1), lambda ev, st: flip(ev, st, 0))
                return flip(ev, st, 1)
            return g
        return at(0)(ev, st)
    return f


def fill(ev, st, a, callee):
    if not isinstance(a[0], R) or a[0].meta is None or isinstance(a[1], A):
        return NotImplemented
    for i in range(a[0].meta):
        x = ev.padd(a[0], i)
        ev.write(st, x.cell, x.path, a[1])
    return UNIT


def index_range(ev, st, a, callee):
    p, r = a
    if not isinstance(p, R) or not isinstance(r, A):
        return NotImplemented
    n = p.meta
    if n is None:
        v = ev.read(st, p.cell, p.path)
        if not isinstance(v, A):
            return NotImplemented
        n = len(v.f)
        p = R(p.cell, p.path + (0,), n)
    ts = [ev.p.types[x]['s'] for x in callee.get('args', [])]
    kind = next((x for x in ts if 'Range' in x), '')
    if 'RangeFull' in kind:
        lo, hi = 0, n
    elif 'RangeFrom' in kind:
        lo, hi = r.f[0], n
    elif 'RangeToInclusive' in kind:
        lo, hi = 0, r.f[0] + 1
    elif 'RangeTo' in kind:
        lo, hi = 0, r.f[0]
    elif 'RangeInclusive' in kind:
        lo, hi = r.f[0], r.f[1] + 1
    elif 'Range' in kind:
        lo, hi = r.f[0], r.f[1]
    else:
        return NotImplemented
    if not (isinstance(lo, int) and isinstance(hi, int)):
        raise Unsupported('range depends on abstract data')
    if not 0 <= lo <= hi <= n:
        raise Panic('range %d..%d of %d' % (lo, hi, n))
    q = ev.padd(p, lo)
    return R(q.cell, q.path, hi - lo)


def index_any(ev, st, a, callee):
    if isinstance(a[1], int):
        p = a[0]
        n = p.meta
        if n is None:
            p = R(p.cell, p.path + (0,), len(ev.read(st, p.cell, p.path).f))
            n = p.meta
        if not 0 <= a[1] < n:
            raise Panic('index %d of %d' % (a[1], n))
        q = ev.padd(p, a[1])
        return R(q.cell, q.path)
    return index_range(ev, st, a, callee)


def chunks(exact):
    def f(ev, st, a, callee):
        if isinstance(a[0], R) and a[0].meta is not None and isinstance(a[1], int) and a[1] > 0:
            return A('chunks', [a[0], 0, a[0].meta, a[1], exact])
        return NotImplemented
    return f


def split_at(ev, st, a, callee):
    p, k = a
    if not isinstance(k, int) or p.meta is None:
        return NotImplemented
    if not 0 <= k <= p.meta:
        raise Panic('split at %d of %d' % (k, p.meta))
    q = ev.padd(p, k)
    return A(None, [R(p.cell, p.path, k), R(q.cell, q.path, p.meta - k)])


def sl_len(ev, st, a, callee):
    if isinstance(a[0], R) and a[0].meta is not None:
        return a[0].meta
    return NotImplemented


def sl_swap(ev, st, a, callee):
    p, i, j = a
    if not (isinstance(i, int) and isinstance(j, int) and p.meta is not None):
        return NotImplemented
    if not (0 <= i < p.meta and 0 <= j < p.meta):
        raise Panic('swap of %d and %d of %d' % (i, j, p.meta))
    x, y = ev.padd(p, i), ev.padd(p, j)
    u, v = ev.read(st, x.cell, x.path), ev.read(st, y.cell, y.path)
    ev.write(st, x.cell, x.path, v)
    ev.write(st, y.cell, y.path, u)
    return UNIT


def mem_swap(ev, st, a, callee):
    x, y = a
    u, v = ev.read(st, x.cell, x.path), ev.read(st, y.cell, y.path)
    ev.write(st, x.cell, x.path, v)
    ev.write(st, y.cell, y.path, u)
    return UNIT


def copy_from_slice(ev, st, a, callee):
    d, s = a
    if d.meta != s.meta:
        raise Panic('copy_from_slice of different lengths')
    ev.copy(st, s, d, s.meta)
    return UNIT


def clone(ev, st, a, callee):
    if callee.get('key') and callee.get('rlocal'):
        return NotImplemented
    return ev.read(st, a[0].cell, a[0].path)


def cmin(ev, st, a, callee):
    if isinstance(a[0], int) and isinstance(a[1], int):
        return min(a)
    return NotImplemented


def cmax(ev, st, a, callee):
    if isinstance(a[0], int) and isinstance(a[1], int):
        return max(a)
    return NotImplemented


def rotl(ev, st, a, callee):
    return ev.dom.rotate(ev, st, a[0], a[1]) if hasattr(ev.dom, 'rotate') else NotImplemented


RN = 'std::iter::range::<impl std::iter::Iterator for std::ops::Range>::next'
MODELS = {
    RN: range_next,
    'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next': range_next,
    '<std::ops::Range as std::iter::Iterator>::next': range_next,
    'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back': range_next_back,
    '<I as std::iter::IntoIterator>::into_iter': ident,
    'core::slice::<impl [T]>::iter': sl_iter,
    'core::slice::<impl [T]>::iter_mut': sl_iter,
    'core::slice::<impl [T]>::len': sl_len,
    'core::slice::<impl [T]>::swap': sl_swap,
    'core::slice::<impl [T]>::copy_from_slice': copy_from_slice,
    'std::mem::swap': mem_swap,
    'core::slice::<impl [T]>::chunks': chunks(False),
    'core::slice::<impl [T]>::chunks_mut': chunks(False),
    'core::slice::<impl [T]>::chunks_exact': chunks(True),
    'core::slice::<impl [T]>::chunks_exact_mut': chunks(True),
    'core::slice::<impl [T]>::split_at': split_at,
    'core::slice::<impl [T]>::split_at_mut': split_at,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": sl_into,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter": sl_into,
    'std::cmp::min': cmin,
    'std::cmp::max': cmax,
    'std::cmp::Ord::min': cmin,
    'std::cmp::Ord::max': cmax,
    'std::clone::Clone::clone': clone,
}


def _into_array(ev, st, a, callee):
    if isinstance(a[0], R) and a[0].meta is None:
        v = ev.read(st, a[0].cell, a[0].path)
        if isinstance(v, A) and v.var is None:
            return A('sliter', [R(a[0].cell, a[0].path + (0,)), 0, len(v.f)])
    return sl_into(ev, st, a, callee)


METHODS = {
    'rev': rev_, 'step_by': step_by, 'enumerate': wrapper('enum', 0), 'zip': zip_, 'chain': two('chain', 0),
    'map': wrapper('map'), 'copied': wrapper('copied'), 'cloned': wrapper('copied'), 'take': wrapper('take'),
    'skip': wrapper('skip'), 'all': quant(0), 'any': quant(1), 'fold': fold, 'for_each': for_each, 'count': count,
    'by_ref': ident,
}


def _generic(path):
    """Models chosen by the trait method when the exact path is not listed."""
    if 'Iterator' in path:
        m = METHODS.get(path.rsplit('::', 1)[1])
        if m is not None:
            return m
    if path.endswith('::fill') and 'slice' in path:
        return fill
    if path.endswith(('::eq', '::ne')) and 'PartialEq' in path:
        return sl_eq(path.endswith('::ne'))
    if path.endswith('::next') and 'Iterator' in path:
        return ad_next
    if path.endswith('::into_iter'):
        return _into_array
    if 'ops::Index' in path and (path.endswith('::index') or path.endswith('::index_mut')):
        return index_any
    if path.endswith('::clone') and 'Clone' in path:
        return clone
    return None
