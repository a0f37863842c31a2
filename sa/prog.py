"""Loading of the MIR dump: types, bodies, control flow graphs and path normalisation."""
import json
import re


def strip_generics(p):
    """Remove generic arguments: `a::B::<'x, T>::f` -> `a::B::f`, `<a::B<T> as c::D<E>>::f` -> `<a::B as c::D>::f`."""
    out = []
    i = 0
    n = len(p)
    # a leading qualified self
    if p.startswith('<') :
        # find matching bracket
        depth = 0
        for j, ch in enumerate(p):
            if ch == '<':
                depth += 1
            elif ch == '>' and p[j - 1] != '-':
                depth -= 1
                if depth == 0:
                    break
        inner = p[1:j]
        rest = p[j + 1:]
        # split at top level " as "
        depth = 0
        k = 0
        cut = None
        while k < len(inner):
            ch = inner[k]
            if ch in '<([':
                depth += 1
            elif ch in '>)]' and inner[k - 1] != '-':
                depth -= 1
            elif depth == 0 and inner.startswith(' as ', k):
                cut = k
                break
            k += 1
        if cut is None:
            return '<' + strip_generics(inner) + '>' + strip_generics(rest)
        return '<' + strip_generics(inner[:cut]) + ' as ' + strip_generics(inner[cut + 4:]) + '>' + strip_generics(rest)
    depth = 0
    while i < n:
        ch = p[i]
        if ch == '<' and not (p.startswith('<impl ', i)):
            # drop a preceding ::
            d = 0
            j = i
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if out[-2:] == [':', ':']:
                out = out[:-2]
            i = j + 1
            continue
        if ch == '<':
            d = 0
            j = i
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            out.extend(p[i:j + 1])
            i = j + 1
            continue
        out.append(ch)
        i += 1
    return re.sub(r"&'[a-z_]+ ", '&', ''.join(out))


class Body:
    __slots__ = ('d', 'key', 'path', 'npath', 'argc', 'blocks', 'locals', 'file', 'line', 'local', 'headers', 'loops', 'spread', '_succ', 'root')

    def __init__(self, d):
        self.d = d
        self.key = d['key']
        self.path = d['path']
        self.npath = strip_generics(d['path'])
        self.argc = d['argc']
        self.blocks = d['blocks']
        self.locals = d['locals']
        self.file = d['file']
        self.line = d['line']
        self.local = d['local']
        self.spread = d['spread']
        self.root = d.get('root')
        self.headers = None
        self.loops = None
        self._succ = None

    def where(self, line=None):
        f = self.file.replace('/repo/', '')
        return '%s:%s' % (f, line if line is not None else self.line)

    def succ(self, b):
        if self._succ is None:
            self._succ = [succs(x['t']) for x in self.blocks]
        return self._succ[b]

    def loop_headers(self):
        if self.headers is None:
            self._loops()
        return self.headers

    def _loops(self):
        n = len(self.blocks)
        order = []
        seen = set()
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ(x))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in self.succ(b):
                preds[x].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        headers = set()
        loops = {}

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        for b in rpo:
            for x in self.succ(b):
                if dom(x, b):
                    headers.add(x)
                    body = loops.setdefault(x, {x})
                    work = [b]
                    while work:
                        y = work.pop()
                        if y not in body:
                            body.add(y)
                            work.extend(preds[y])
        self.headers = headers
        self.loops = loops


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[5]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['key']] = Body(b)
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b.npath, []).append(b)
        self.fns = d['fns']
        self.adts = d['adts']
        self.impls = d['impls']
        self.consts = {c['path']: c for c in d['consts']}
        self.aliases = {a['path']: a['ty'] for a in d['aliases']}
        self.roots = d['roots']
        self._np = {}
        self.ty_by_path = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt':
                self.ty_by_path.setdefault(strip_generics(t['path']), []).append(i)

    def npath(self, p):
        r = self._np.get(p)
        if r is None:
            r = self._np[p] = strip_generics(p)
        return r

    def body(self, path, **kw):
        """The unique body for a normalised path; prefers instantiations without type parameters."""
        c = self.by_path.get(path, [])
        c2 = [b for b in c if not b.d['generic']]
        return (c2 or c or [None])[0]

    def tname(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            n = t['path']
            if t.get('args'):
                n += '<' + ','.join(self.tname(a) for a in t['args']) + '>'
            return n
        if k == 'int':
            return ('i' if t['signed'] else 'u') + str(t['bits'])
        if k == 'ref':
            return '&' + ('mut ' if t['mut'] else '') + self.tname(t['to'])
        if k == 'ptr':
            return '*' + ('mut ' if t['mut'] else 'const ') + self.tname(t['to'])
        if k == 'tuple':
            return '(' + ','.join(self.tname(x) for x in t['elems']) + ')'
        if k == 'slice':
            return '[' + self.tname(t['elem']) + ']'
        if k == 'array':
            return '[%s;%s]' % (self.tname(t['elem']), t['len'])
        if k == 'param':
            return t['name']
        return k
