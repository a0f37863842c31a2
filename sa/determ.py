"""Results are functions of the arguments (C29): no hidden inputs, no hidden state, no dependence on the build mode.

Three queries over the MIR of every function of the crate:
 * a value that comes from outside the arguments (clock, environment, files, threads, random hasher seeds, addresses) or from
   state that survives a call (statics that can change) must not reach a branch, a call, a result or a write;
 * nothing is written while a hash map is walked (its order differs from run to run);
 * what a debug assertion evaluates changes nothing that the rest of the function, or its caller, can see: a release build
   computes the same as the tested build."""
from .borrow import bodies
from .effects import Walk
from .group import Missing

PIDS = ('C29',)
OUTSIDE = ('std::time::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::io::', 'std::random::', 'core::random::', 'std::os::', 'std::sys::',
           'std::backtrace::', 'std::panic::Location')
SEEDED = ('hash_map::RandomState', 'std::hash::RandomState', 'std::hash::random::')
ADDR = ('::addr', '::expose_provenance', '::expose_addr')
ONCE = ('OnceLock', 'OnceCell', 'LazyLock', 'LazyCell', 'Lazy', 'Once', 'Mutex', 'RwLock', 'RefCell')
WALKS = ('::iter', '::iter_mut', '::keys', '::values', '::values_mut', '::into_iter', '::drain', '::into_keys', '::into_values', '::retain')
NOWRITE = ('::len', '::is_empty', '::as_ptr', '::as_mut_ptr', '::add', '::sub', '::offset', '::cast', '::as_slice', '::get', '::iter', '::eq', '::ne', '::deref', '::deref_mut',
           '::as_ref', '::as_mut', '::borrow', '::index', '::index_mut', '::is_null', '::cmp', '::partial_cmp', '::clone', '::iter_mut', '::split_at_mut', '::first', '::last',
           '::new_display', '::new_debug', '::fmt', '::as_mut_slice', '::into_iter', '::as_deref', '::is_some', '::is_none')


def callpath(t):
    return (t[1].get('rpath') or t[1].get('path') or '') if isinstance(t[1], dict) else ''


def operands(rv):
    if rv[0] in ('ref', 'raw', 'rawptr', 'addr', 'discr', 'len'):
        return [{'p': rv[1]}]
    return [z for x in rv[1:] for z in (x if isinstance(x, list) else [x]) if isinstance(z, dict) and ('p' in z or 'v' in z)]


# ------------------------------------------------------------------ hidden inputs and hidden state
def sources(w, b, statics):
    """local -> (what, certain) for locals that get a value from outside the arguments."""
    out = {}
    for blk in b.blocks:
        if blk.get('c'):
            continue
        for s in blk['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            if rv[0] == 'cast' and rv[1] == 'PointerExposeProvenance':
                out[s[1][0]] = ('an address', True, s[3])
            for o in operands(rv):
                v = o.get('v')
                if isinstance(v, dict) and 'static' in v and v['static'] in statics:
                    st = statics[v['static']]
                    ty = st['t']
                    soft = any(x in ty for x in ONCE) or st['mut'] and ty not in ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'i16', 'i8', 'isize', 'bool')
                    out[s[1][0]] = ('the static %s: %s' % (v['static'], ty), not soft, s[3])
        t = blk['t']
        if t[0] != 'call':
            continue
        for o in t[2]:
            v = o.get('v') if isinstance(o, dict) else None
            if isinstance(v, dict) and 'static' in v and v['static'] in statics:
                out[t[3][0]] = ('the static %s' % v['static'], False, t[5])
        p = callpath(t)
        if p.startswith(('std::thread::LocalKey', 'std::thread::local::LocalKey')):
            out[t[3][0]] = ('a thread-local', p.endswith(('::get', '::take', '::replace')), t[5])
        elif p.startswith(OUTSIDE) and not p.startswith('std::io::Write'):
            out[t[3][0]] = (p, True, t[5])
        elif any(x in p for x in SEEDED):
            out[t[3][0]] = (p, 'build_hasher' in p or 'hash_one' in p, t[5])
        elif p.endswith(ADDR) and '_ptr::' in p or p.endswith('new_pointer'):
            out[t[3][0]] = (p, True, t[5])
    return out


def influence(w, b, src):
    """How does the value of this local get out of it?"""
    seen, todo = set(), [src]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0 and w.T[b.locals[0][0]]['s'] != '()':
            return 'returned'
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                if any('p' in o and o['p'][0] == l for o in operands(s[2])):
                    if '*' in s[1][1:] and s[1][0] not in seen:
                        return 'written to memory at line %s' % s[3]
                    todo.append(s[1][0])
            t = blk['t']
            if t[0] == 'switch' and isinstance(t[1], dict) and 'p' in t[1] and t[1]['p'][0] == l:
                return 'branched on'
            if t[0] == 'call':
                if any(isinstance(o, dict) and 'p' in o and o['p'][0] == l for o in t[2]):
                    if isinstance(t[1], dict) and t[1].get('local'):
                        return 'passed to %s' % callpath(t)
                    todo.append(t[3][0])
                    for o, ty in zip(t[2], t[6]):
                        if isinstance(o, dict) and 'p' in o and o['p'][0] != l and w.T[ty].get('mut'):
                            todo.append(o['p'][0])
    return None


def hidden(g):
    P = g.P
    w = Walk(P)
    statics = {s['path']: s for s in P.raw.get('statics', []) if s['mut'] or not s['freeze']}
    n = 0
    for name, b in sorted(bodies(w).items()):
        n += 1
        g.fn(b)
        bad = False
        for l, (what, certain, line) in sorted(sources(w, b, statics).items()):
            how = influence(w, b, l)
            key = '%s: computed from its arguments only' % name
            if how and certain:
                bad = True
                g.check(PIDS, False, key, '%s is %s' % (what, how), b.where(line))
            elif how:
                bad = True
                g.undecided(PIDS, key, '%s is %s' % (what, how), b.where(line))
        if not bad:
            g.check(PIDS, True, '%s: computed from its arguments only' % name, '', b.where())
    g.check(PIDS, n >= 300, 'functions examined', '%d' % n, '')
    g.sites += n


# ------------------------------------------------------------------ order of hash maps
def order(g):
    w = Walk(g.P)
    n = 0
    for name, b in sorted(bodies(w).items()):
        uses = []
        for i, blk in enumerate(b.blocks):
            t = blk['t']
            if blk.get('c') or t[0] != 'call':
                continue
            p = callpath(t)
            tys = ' '.join(w.T[x]['s'] for x in t[6][:1])
            if ('HashMap' in tys or 'HashSet' in tys or 'hash_map::' in tys or 'hash_set::' in tys) and (p.endswith(WALKS) or p.endswith('::next')):
                uses.append((i, p, t[5]))
        if not uses:
            continue
        n += 1
        b.loop_headers()
        key = '%s: nothing depends on the order of a hash map' % name
        bad = None
        for i, p, line in uses:
            if not p.endswith('::next'):
                continue
            for h, body in b.loops.items():
                if i not in body:
                    continue
                for k in body:
                    t = b.blocks[k]['t']
                    if t[0] == 'call' and k != i and any(w.T[x].get('path') == 'trits::slice::TritSliceMutT' or w.T[x]['k'] == 'ref' and w.T[x].get('mut') and
                                                         w.path(x) in ('spongos::Spongos', 'trits::slice::TritSliceMutT') for x in t[6]):
                        bad = (callpath(t), t[5])
        if bad:
            g.check(PIDS, False, key, '%s is called in that order' % bad[0], b.where(bad[1]))
        else:
            g.undecided(PIDS, key, ', '.join(sorted({p for _, p, _ in uses})), b.where(uses[0][2]))
    g.check(PIDS, True, 'walks over hash maps examined', '%d' % n, '')


# ------------------------------------------------------------------ debug assertions
def guards(b):
    """(switch block, blocks that only a debug build runs) for every `if cfg!(debug_assertions)`."""
    defs = {}
    for i, blk in enumerate(b.blocks):
        for s in blk['s']:
            if s[0] == '=' and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(s[2])
        if blk['t'][0] == 'call':
            defs.setdefault(blk['t'][3][0], []).append(None)
    for i, blk in enumerate(b.blocks):
        t = blk['t']
        if blk.get('c') or t[0] != 'switch' or not (isinstance(t[1], dict) and 'p' in t[1] and len(t[1]['p']) == 1):
            continue
        if not (len(t) > 6 and t[6]):
            continue
        d = defs.get(t[1]['p'][0], [])
        if len(d) != 1 or d[0] is None or d[0][0] != 'use' or 'v' not in d[0][1] or d[0][1]['v'] != {'bool': True}:
            continue
        off = [x[1] for x in t[3] if x[0] == 0]
        if len(off) != 1 or t[4] is None:
            continue
        seen, todo = {0}, [0]
        while todo:
            k = todo.pop()
            for x in ([off[0]] if k == i else b.succ(k)):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        reg, todo = set(), [t[4]]
        while todo:
            k = todo.pop()
            if k not in seen and k not in reg:
                reg.add(k)
                todo.extend(b.succ(k))
        yield i, reg, t[5] if len(t) > 5 else b.line


class Writes:
    """May a function write through its i-th argument?"""

    def __init__(self, w):
        self.w = w
        self.B = bodies_mono(w)
        self.memo = {}

    def rights(self, ty):
        x = self.w.T[ty]
        return x['k'] in ('ref', 'ptr') and bool(x.get('mut')) or x.get('path') == 'trits::slice::TritSliceMutT'

    def param(self, name, i):
        if (name, i) in self.memo:
            return self.memo[name, i]
        self.memo[name, i] = False
        b = self.B.get(name)
        r = None if b is None or i > b.argc else self.local(b, i)
        self.memo[name, i] = r
        return r

    def local(self, b, src, blocks=None):
        """True, False or None (unknown): is the storage this local points to written in these blocks?"""
        seen, todo = set(), [src]
        unknown = False
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            for k, blk in enumerate(b.blocks):
                if blk.get('c') or blocks is not None and k not in blocks:
                    continue
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    if s[1][0] == l and '*' in s[1][1:]:
                        return True
                    if any('p' in o and o['p'][0] == l for o in operands(s[2])) and self.w.borrowish(b.locals[s[1][0]][0]):
                        todo.append(s[1][0])
                t = blk['t']
                if t[0] != 'call':
                    continue
                for j, (o, ty) in enumerate(zip(t[2], t[6])):
                    if not (isinstance(o, dict) and 'p' in o and o['p'][0] == l):
                        continue
                    if self.rights(ty):
                        r = self.called(t, j, ty)
                        if r is True:
                            return True
                        unknown = unknown or r is None
                    if self.w.borrowish(b.locals[t[3][0]][0]):
                        todo.append(t[3][0])
        return None if unknown else False

    def called(self, t, j, ty):
        p = callpath(t)
        if isinstance(t[1], dict) and t[1].get('local'):
            return self.param(self.w.P.npath(p), j + 1)
        if p.endswith(NOWRITE):
            return False
        return True if p.startswith(('std::', 'core::', 'alloc::')) and not 'ops::Fn' in p else None


def bodies_mono(w):
    out = {}
    for b in w.bodies:
        if b.npath not in out or not b.d.get('generic'):
            out[b.npath] = b
    return out


def asserts(g):
    w = Walk(g.P)
    wr = Writes(w)
    n = 0
    for name, b in sorted(wr.B.items()):
        G = list(guards(b))
        release = set(range(len(b.blocks))) - set().union(*[reg for _, reg, _ in G])
        for i, reg, line in G:
            n += 1
            key = '%s: debug assertions only look' % name
            ok = True
            inside = set()
            for k in reg:
                for s in b.blocks[k]['s']:
                    if s[0] == '=' and len(s[1]) >= 1:
                        inside.add((s[1][0], s[3] if len(s) > 3 else line, '*' in s[1][1:]))
                if b.blocks[k]['t'][0] == 'call':
                    inside.add((b.blocks[k]['t'][3][0], b.blocks[k]['t'][5], '*' in b.blocks[k]['t'][3][1:]))
            outside_reads = reads(w, b, release)
            outside_defs = assigned(b, release)
            for l, ln, deref in sorted(inside):
                if deref and (1 <= l <= b.argc or l in outside_defs):
                    ok = g.check(PIDS, False, key, 'writes through _%d (%s)' % (l, b.locals[l][1]), b.where(ln)) and ok
                elif not deref and l in outside_reads and w.T[b.locals[l][0]]['s'] not in ('()', '!'):
                    ok = g.check(PIDS, False, key, 'assigns _%d (%s), which is used afterwards' % (l, b.locals[l][1]), b.where(ln)) and ok
            # storage from outside the assertion that it hands out for writing
            for k in sorted(reg):
                for s in b.blocks[k]['s']:
                    if s[0] == '=' and s[2][0] in ('ref', 'raw', 'rawptr', 'addr') and s[2][2] is True and (s[2][1][0] in outside_defs or 1 <= s[2][1][0] <= b.argc):
                        ok = judge(g, key, wr.local(b, s[1][0], reg), b, s[2][1][0], s[3]) and ok
                t = b.blocks[k]['t']
                if t[0] == 'call':
                    for j, (o, ty) in enumerate(zip(t[2], t[6])):
                        if isinstance(o, dict) and 'p' in o and wr.rights(ty) and origin(b, reg, o['p'][0], outside_defs):
                            ok = judge(g, key, wr.called(t, j, ty), b, o['p'][0], t[5]) and ok
            if ok:
                g.check(PIDS, True, key, '', b.where(line))
    g.check(PIDS, n >= 20, 'debug assertions examined', '%d' % n, '')
    g.sites += n


def judge(g, key, r, b, l, line):
    if r is True:
        return g.check(PIDS, False, key, 'changes what _%d (%s) stands for' % (l, b.locals[l][1]), b.where(line))
    if r is None:
        g.undecided(PIDS, key, 'hands _%d to code that is not resolved' % l, b.where(line))
        return False
    return True


def origin(b, reg, l, outside_defs):
    """Does this local hold (a copy of) something from outside the region?"""
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if 1 <= x <= b.argc or x in outside_defs:
            return True
        for k in reg:
            for s in b.blocks[k]['s']:
                if s[0] == '=' and s[1][0] == x and s[2][0] in ('use', 'cast'):
                    todo += [o['p'][0] for o in operands(s[2]) if 'p' in o]
    return False


def assigned(b, blocks):
    out = set()
    for k in blocks:
        for s in b.blocks[k]['s']:
            if s[0] == '=':
                out.add(s[1][0])
        if b.blocks[k]['t'][0] == 'call':
            out.add(b.blocks[k]['t'][3][0])
    return out


def reads(w, b, blocks):
    out = {0} if w.T[b.locals[0][0]]['s'] != '()' else set()
    for k in blocks:
        blk = b.blocks[k]
        if blk.get('c'):
            continue
        for s in blk['s']:
            if s[0] == '=':
                out.update(o['p'][0] for o in operands(s[2]) if 'p' in o)
                if len(s[1]) > 1 and '*' in s[1][1:]:
                    out.add(s[1][0])
        t = blk['t']
        if t[0] == 'call':
            out.update(o['p'][0] for o in t[2] if isinstance(o, dict) and 'p' in o)
        elif t[0] in ('switch', 'assert') and isinstance(t[1], dict) and 'p' in t[1]:
            out.add(t[1]['p'][0])
    return out


def run(g):
    g.guard(hidden, 'hidden inputs', PIDS)
    g.guard(order, 'order of hash maps', PIDS)
    g.guard(asserts, 'debug assertions', PIDS)
