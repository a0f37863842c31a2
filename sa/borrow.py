"""Slices obey the borrow rules of the storage they point into (C28).

The compiler checks borrows only where lifetimes are derived from references. Slices keep a raw pointer, so the lifetime
of a slice is whatever the signature of the function that makes it says. Three queries decide that every signature of the
crate tells the truth, and witness programs check that the type system then rejects every violating use:
 * R1  every lifetime a function returns is one of its arguments' (no lifetime out of nowhere);
 * R2  the storage a returned slice or reference points into is traced back through the MIR to the arguments: it is never
       a local of the function, and the argument carries the lifetime the result claims;
 * R3  a mutable slice or reference is only made from an exclusive one, and no pointer gains the right to write;
 * R4  pointer and range of a slice cannot be set from outside the crate, and a slice cannot move to another thread;
 * R5  violating programs are rejected with the expected error, while their corrected twins compile."""
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import harness
from .effects import Walk
from .group import Missing

PIDS = ('C28',)
SL, SM = 'trits::slice::TritSliceT', 'trits::slice::TritSliceMutT'
# takes a raw pointer: the caller vouches for it (documented exemption); its callers inside the crate are traced
RAW = {SL + '::from_raw_ptr', SM + '::from_raw_ptr'}


def lives(rs):
    """The lifetimes in a signature entry that matter."""
    return [r for r in rs if r[0] != "'static" and (r[1] != 'adt' or r[2].startswith('local:'))]


def excl(r):
    return r[1] == '&mut' or r[1] == 'adt' and r[2].endswith(SM)


# ------------------------------------------------------------------ signatures
def signatures(g):
    P = g.P
    n = 0
    for f in P.fns:
        name = P.npath(f['path'])
        out = f.get('rout') or []
        if not out:
            continue
        n += 1
        if name in RAW:
            continue
        rin = [r for a in f['rin'] for r in a]
        where = '%s:%s' % (f['file'].split('/src/')[-1], f['line'])
        for r in out:
            if r[1] == 'adt' and not r[2].startswith('local:'):
                continue
            src = [x for x in rin if x[0] == r[0]]
            if r[0] == "'static" and r[1] == '&' and r[2] == 'str':
                continue
            if not src and any(P.types[a]['k'] == 'ptr' for a in f['ins']):
                # made from a raw pointer: inside the crate its callers are traced, outside it is up to them
                if f['exported']:
                    g.undecided(PIDS, '%s: the lifetime of the result is that of an argument' % name, 'made from a raw pointer', where)
                continue
            g.check(PIDS, src, '%s: the lifetime of the result is that of an argument' % name,
                    'lifetime %s of %s %s comes from no argument' % (r[0], r[1], r[2]), where)
            if src and excl(r):
                g.check(PIDS, any(excl(x) or x[1] == 'adt' and x[2].startswith('local:') and not x[2].endswith(SL) for x in src),
                        '%s: what may be written was exclusively borrowed' % name,
                        '%s %s made from %s' % (r[1], r[2], ', '.join('%s %s' % (x[1], x[2]) for x in src)), where)
    g.check(PIDS, n >= 30, 'functions that hand out borrows found', '%d' % n, '')
    g.sites += n


# ------------------------------------------------------------------ provenance
class Prov:
    """Backward slice of the returned pointers of one body."""

    def __init__(self, w, b):
        self.w = w
        self.b = b
        self.defs = {}
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] == '=':
                    self.defs.setdefault(s[1][0], []).append(('s', s[2], s[1]))
            t = blk['t']
            if t[0] == 'call':
                self.defs.setdefault(t[3][0], []).append(('c', t, t[3]))
        self.args = set()
        self.locals = set()
        self.odd = set()

    def pointer(self, t):
        return self.w.borrowish(t)

    def operand(self, o):
        if isinstance(o, dict) and 'p' in o:
            st, ty = self.w.steps(self.b, o['p'])
            if self.pointer(ty):
                self.local(o['p'][0])

    def place_of_ref(self, pl):
        """`&place`: through a dereference the pointer comes from the base; otherwise it points into the local itself."""
        base = pl[0]
        if '*' in pl[1:]:
            self.local(base)
            return
        t = self.b.locals[base][0]
        if self.pointer(t):
            self.local(base)      # a local slice or reference: what matters is what it points to
        else:
            self.locals.add((base, self.w.T[t]['s']))

    def local(self, l):
        if ('l', l) in self.odd:
            return
        self.odd.add(('l', l))
        if 1 <= l <= self.b.argc:
            self.args.add(l)
        for kind, d, dst in self.defs.get(l, ()):
            if kind == 'c':
                self.call(d)
                continue
            rv = d
            if rv[0] in ('ref', 'raw', 'rawptr', 'addr'):
                self.place_of_ref(rv[1])
            elif rv[0] in ('use', 'cast', 'agg', 'un', 'bin', 'repeat', 'copyref'):
                for x in rv[1:]:
                    for z in (x if isinstance(x, list) else [x]):
                        self.operand(z)

    def call(self, t):
        for o in t[2]:
            self.operand(o)


def bodies(w):
    """One body per function (generic ones stand for their instances)."""
    out = {}
    for b in w.bodies:
        if b.npath not in out or b.d.get('generic'):
            out[b.npath] = b
    return out


def provenance(g):
    P = g.P
    w = Walk(P)
    B = bodies(w)
    n = 0
    for f in P.fns:
        name = P.npath(f['path'])
        rout = [r for r in f.get('rout') or [] if r[1] != 'adt' or r[2].startswith('local:')]
        if not rout or name not in B or name in RAW:
            continue
        b = B[name]
        if b.argc != len(f['rin']):
            continue
        g.fn(b)
        p = Prov(w, b)
        p.local(0)
        n += 1
        for l, ty in sorted(p.locals):
            g.check(PIDS, False, '%s: does not return a pointer into its own frame' % name, 'local _%d: %s' % (l, ty), b.where())
        names = {r[0] for r in rout}
        for a in sorted(p.args):
            rs = {r[0] for r in f['rin'][a - 1]}
            if rs:
                g.check(PIDS, rs & names, '%s: the result borrows from the argument it points into' % name,
                        'it points into argument %d (%s), but has the lifetime %s' % (a, '/'.join(sorted(rs)), '/'.join(sorted(names))), b.where())
    g.check(PIDS, n >= 25, 'bodies that hand out borrows traced', '%d' % n, '')


# ------------------------------------------------------------------ the right to write
WRITES = {SM + '::from_raw_ptr', SM + '::with_range'}


def writes_through(w, b, dst):
    """Does the pointer stored in this local reach a write or a mutable slice within the body?"""
    seen, todo = set(), [dst]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            t = w.T[b.locals[0][0]]
            if t.get('mut') or w.path(b.locals[0][0]) == SM:
                return 'returned as %s' % t['s']
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                if s[1][0] == l and '*' in s[1][1:]:
                    return 'written through'
                rv = s[2]
                used = [z for x in rv[1:] for z in (x if isinstance(x, list) else [x]) if isinstance(z, dict) and 'p' in z and z['p'][0] == l]
                if rv[0] in ('ref', 'raw', 'rawptr', 'addr') and rv[1][0] == l:
                    if '*' in rv[1][1:] and rv[2] is True:
                        return 'borrowed mutably'
                    used = [1]
                if used and rv[0] == 'agg' and rv[1] == 'adt' and w.T[rv[2]].get('path') == SM:
                    return 'put into a mutable slice'
                if used and rv[0] in ('use', 'cast', 'agg', 'ref', 'raw', 'rawptr', 'addr'):
                    todo.append(s[1][0])
            t = blk['t']
            if t[0] == 'call' and isinstance(t[1], dict):
                for o, ty in zip(t[2], t[6]):
                    if isinstance(o, dict) and 'p' in o and o['p'][0] == l:
                        x = w.T[ty]
                        if x.get('mut') or x.get('path') == SM:
                            path = t[1].get('path', '')
                            if w.P.npath(path) in WRITES or x.get('path') == SM or 'TritWord' in path or path.endswith(('::write', '::write_bytes', '::from_raw_parts_mut', '::as_mut', '::copy', '::swap')):
                                return 'passed to %s' % path
                        if w.borrowish(b.locals[t[3][0]][0]):
                            todo.append(t[3][0])
    return None


def mutability(g):
    P = g.P
    w = Walk(P)
    casts = 0
    for name, b in sorted(bodies(w).items()):
        for blk in b.blocks:
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] != '=' or s[2][0] != 'cast' or len(s[2]) < 6:
                    continue
                rv = s[2]
                to, fr = w.T[rv[3]], w.T[rv[5]]
                if to['k'] not in ('ref', 'ptr'):
                    continue
                casts += 1
                gain = to.get('mut') and (fr['k'] in ('ref', 'ptr') and not fr.get('mut') or fr['k'] == 'int')
                if not gain:
                    continue
                how = writes_through(w, b, s[1][0])
                key = '%s: no pointer gains the right to write' % name
                text = '%s becomes %s' % (fr['s'], to['s'])
                if how:
                    g.check(PIDS, False, key, text + ' and is ' + how, b.where(s[3]))
                else:
                    g.undecided(PIDS, key, text, b.where(s[3]))
            t = blk['t']
            if t[0] == 'call' and isinstance(t[1], dict):
                path = t[1].get('path', '')
                if path.endswith('::cast_mut') or path.endswith('::transmute') and transmute_gains(w, t):
                    how = writes_through(w, b, t[3][0])
                    key = '%s: no pointer gains the right to write' % name
                    if how:
                        g.check(PIDS, False, key, '%s: %s' % (path, how), b.where(t[5]))
                    else:
                        g.undecided(PIDS, key, path, b.where(t[5]))
    g.check(PIDS, True, 'pointer casts examined', '%d' % casts, '')
    g.sites += casts


def transmute_gains(w, t):
    def rights(ty):
        x = w.T[ty]
        return x['k'] in ('ref', 'ptr') and bool(x.get('mut')) or x.get('path') == SM
    return rights(t[7]) and not rights(t[6][0])


def layout(g):
    P = g.P
    for path in (SL, SM, 'trits::slice::SliceRange', 'trits::trits::TritsT'):
        t = next((x for x in P.types if x.get('k') == 'adt' and x.get('path') == path and x.get('variants')), None)
        if t is None:
            raise Missing('type ' + path)
        for f in t['variants'][0]['f']:
            g.check(PIDS, f.get('pub') not in (True, 'Public', 'pub'), '%s.%s: cannot be set from outside the crate' % (path, f['n']), str(f.get('pub')), '')
    for im in P.d['impls'] if hasattr(P, 'd') else P.impls:
        tr = im.get('trait') or ''
        if tr.endswith(('marker::Send', 'marker::Sync')):
            t = P.types[im['self']]
            g.check(PIDS, t.get('path') not in (SL, SM), '%s: tied to the thread of its storage' % t['s'], 'impl %s' % tr, im.get('file', ''))
        elif tr.endswith(('ops::DerefMut', 'convert::AsMut', 'borrow::BorrowMut', 'ops::IndexMut')):
            t = P.types[im['self']]
            g.check(PIDS, t.get('path') != SL, '%s: gives no access for writing' % t['s'], 'impl %s' % tr, im.get('file', ''))


# ------------------------------------------------------------------ witnesses
PRE = '''#![allow(unused)]
extern crate iota_mam;
use iota_mam::trits::*;
use iota_mam::{mss, ntru, wots, prng};
fn touch<T>(_: &T) {}
fn send<T: Send>(_: T) {}
'''
T9 = 'let mut t = Trits::zero(9);'


def outlive(expr, mk='slice()'):
    """(witness, control): a derived slice is used after, or before, its Trits is gone."""
    bad = 'pub fn f() { let z; { %s let mut s = t.%s; z = %s; } touch(&z); }' % (T9, mk, expr)
    good = 'pub fn f() { let z; %s let mut s = t.%s; z = %s; touch(&z); }' % (T9, mk, expr)
    return bad, good


def witnesses():
    W = []

    def w(name, code, bad, good):
        W.append((name, code, bad, good))
    E0597 = ('E0597',)
    for mk, what in (('slice()', 'read-only'), ('slice_mut()', 'mutable')):
        w('a %s slice outlives its trits' % what, E0597, *outlive('s', mk))
        for e in ('s.take(3)', 's.take_min(3)', 's.drop(3)', 's.drop_min(3)', 's.pickup(0)', 's.pickup_all()', 's.drop_all()', 's.dropped()',
                  's.advance(3)', 's.diff(s)', 's.split_at(3).0', 's.split_at(3).1', 's.split_at_min(3).0', 's.split_at_min(3).1', 's.clone()'):
            w('%s of a %s slice outlives the trits' % (e, what), E0597, *outlive(e, mk))
    w('as_const outlives the trits', E0597, *outlive('s.as_const()', 'slice_mut()'))
    w('as_const().take outlives the trits', E0597, *outlive('s.as_const().take(2)', 'slice_mut()'))
    S = 'let s = t.slice();'
    M = 'let m = t.slice_mut();'
    w('written while a slice is read', ('E0502',), 'pub fn f() { %s %s %s m.set_zero(); touch(&s); }' % (T9, S, M),
      'pub fn f() { %s %s touch(&s); %s m.set_zero(); }' % (T9, S, M))
    w('sliced while a mutable slice is held', ('E0502',), 'pub fn f() { %s %s %s m.set_zero(); }' % (T9, M, S),
      'pub fn f() { %s %s m.set_zero(); %s touch(&s); }' % (T9, M, S))
    w('two mutable slices', ('E0499',), 'pub fn f() { %s %s let k = t.slice_mut(); m.set_zero(); k.set_zero(); }' % (T9, M),
      'pub fn f() { %s %s m.set_zero(); let k = t.slice_mut(); k.set_zero(); }' % (T9, M))
    w('compared while a mutable slice is held', ('E0502',), 'pub fn f() { %s let u = Trits::zero(9); %s let q = t == u; m.set_zero(); touch(&q); }' % (T9, M),
      'pub fn f() { %s let u = Trits::zero(9); %s m.set_zero(); let q = t == u; touch(&q); }' % (T9, M))
    w('trits moved while sliced', ('E0505',), 'pub fn f() { %s %s drop(t); touch(&s); }' % (T9, S), 'pub fn f() { %s %s touch(&s); drop(t); }' % (T9, S))
    w('trits replaced while sliced', ('E0506',), 'pub fn f() { %s %s t = Trits::zero(3); touch(&s); }' % (T9, S),
      'pub fn f() { %s %s touch(&s); t = Trits::zero(3); }' % (T9, S))
    w('trits moved while mutably sliced', ('E0505',), 'pub fn f() { %s %s drop(t); m.set_zero(); }' % (T9, M), 'pub fn f() { %s %s m.set_zero(); drop(t); }' % (T9, M))
    w('trits read while the read view of a mutable slice is held', ('E0502', 'E0499'), 'pub fn f() { %s let c = t.slice_mut().as_const(); let k = t.slice_mut(); k.set_zero(); touch(&c); }' % T9,
      'pub fn f() { %s let c = t.slice_mut().as_const(); touch(&c); let k = t.slice_mut(); k.set_zero(); }' % T9)
    w('mutable slice of trits that are not mutable', ('E0596',), 'pub fn f() { let t = Trits::zero(9); t.slice_mut().set_zero(); }', 'pub fn f() { %s t.slice_mut().set_zero(); }' % T9)
    w('mutable slice through a shared reference', ('E0596',), 'pub fn f(t: &Trits) { t.slice_mut().set_zero(); }', 'pub fn f(t: &mut Trits) { t.slice_mut().set_zero(); }')
    for e in ('put1(1)', 'put3(1)', 'put6(1)', 'put9(1)', 'put18(1)', 'put_trit(1)', 'put_tryte(1)', 'set_zero()', 'inc()', "put_char('A')", 'set_trit(1)',
              'from_str("A")', 'put1s(&[1])', 'put_trits(&[1])', 'cycle(s)', 'swap_add(s)', 'swap_sub(s)'):
        arg = e.replace('(s)', '(m)') if 'swap' in e else e
        w('%s on a read-only slice' % e, ('E0599',), 'pub fn f<\'a>(s: TritSlice<\'a>) { s.%s; }' % e, 'pub fn f<\'a>(m: TritSliceMut<\'a>, s: TritSlice<\'a>) { m.%s; }' % arg)
    w('a read-only slice passed for a mutable one', ('E0308',), "pub fn f<'a>(x: TritSlice<'a>, y: TritSlice<'a>) { x.copy(y); }",
      "pub fn f<'a>(x: TritSlice<'a>, y: TritSliceMut<'a>) { x.copy(y); }")
    w('slice of an array outlives it', E0597, 'pub fn f() { let z; { let a = [0u8; 9]; z = TritSlice::from_slice(9, &a); } touch(&z); }',
      'pub fn f() { let z; let a = [0u8; 9]; z = TritSlice::from_slice(9, &a); touch(&z); }')
    w('mutable slice of an array outlives it', E0597, 'pub fn f() { let z; { let mut a = [0u8; 9]; z = TritSliceMut::from_slice_mut(9, &mut a); } touch(&z); }',
      'pub fn f() { let z; let mut a = [0u8; 9]; z = TritSliceMut::from_slice_mut(9, &mut a); touch(&z); }')
    w('array written while sliced', ('E0506',), 'pub fn f() { let mut a = [0u8; 9]; let s = TritSlice::from_slice(9, &a); a[0] = 1; touch(&s); }',
      'pub fn f() { let mut a = [0u8; 9]; let s = TritSlice::from_slice(9, &a); touch(&s); a[0] = 1; }')
    w('mutable slice from a shared array', ('E0308',), 'pub fn f(a: &[u8; 9]) { TritSliceMut::from_slice_mut(9, a).set_zero(); }', 'pub fn f(a: &mut [u8; 9]) { TritSliceMut::from_slice_mut(9, a).set_zero(); }')
    w('from_trits outlives the trits', E0597, 'pub fn f() { let z; { let t = Trits::zero(9); z = TritSlice::from_trits(&t); } touch(&z); }',
      'pub fn f() { let z; let t = Trits::zero(9); z = TritSlice::from_trits(&t); touch(&z); }')
    w('from_trits_mut outlives the trits', E0597, 'pub fn f() { let z; { %s z = TritSliceMut::from_trits_mut(&mut t); } touch(&z); }' % T9,
      'pub fn f() { let z; %s z = TritSliceMut::from_trits_mut(&mut t); touch(&z); }' % T9)
    w('a slice returned from the function that owns the trits', ('E0515',), 'pub fn f() -> TritSlice<\'static> { let t = Trits::zero(9); t.slice() }',
      'pub fn f() -> Trits { let t = Trits::zero(9); t.slice().clone_trits() }')
    w('a slice with a longer lifetime than its trits', ('lifetime',), "pub fn f<'a, 'b>(t: &'a Trits, _: &'b u8) -> TritSlice<'b> { t.slice() }", "pub fn f<'a, 'b>(t: &'a Trits, _: &'b u8) -> TritSlice<'a> { t.slice() }")
    w('a longer lifetime by a slice method', ('lifetime',), "pub fn f<'a, 'b>(t: TritSlice<'a>, _: &'b u8) -> TritSlice<'b> { t.drop(1) }", "pub fn f<'a, 'b>(t: TritSlice<'a>, _: &'b u8) -> TritSlice<'a> { t.drop(1) }")
    w('a longer lifetime of a mutable slice', ('lifetime',), "pub fn f<'a, 'b>(t: TritSliceMut<'a>, _: &'b u8) -> TritSliceMut<'b> { t.drop(1) }", "pub fn f<'a, 'b>(t: TritSliceMut<'a>, _: &'b u8) -> TritSliceMut<'a> { t.drop(1) }")
    w('a longer lifetime by as_const', ('lifetime',), "pub fn f<'a, 'b>(t: TritSliceMut<'a>, _: &'b u8) -> TritSlice<'b> { t.as_const() }", "pub fn f<'a, 'b>(t: TritSliceMut<'a>, _: &'b u8) -> TritSlice<'a> { t.as_const() }")
    w('a mutable slice sent to another thread', ('E0277',), "pub fn f(t: TritSliceMut<'static>) { send(t); }", 'pub fn f(t: Trits) { send(t); }')
    w('a slice sent to another thread', ('E0277',), "pub fn f(t: TritSlice<'static>) { send(t); }", 'pub fn f(t: Trits) { send(t); }')
    w('a slice built from its parts', ('E0451', 'E0063', 'E0423'), "pub fn f<'a>(s: TritSlice<'a>) -> TritSlice<'a> { TritSlice { ..s } }", "pub fn f<'a>(s: TritSlice<'a>) -> TritSlice<'a> { s }")
    w('the public key of a signature key outlives it', ('E0597', 'E0505'), 'pub fn f(k: @) { let p = k.public_key(); drop(k); touch(&p); }', 'pub fn f(k: @) { let p = k.public_key(); touch(&p); drop(k); }')
    w('the public key held while the key moves on', ('E0502',), 'pub fn f(mut k: @) { let p = k.public_key(); k.next(); touch(&p); }', 'pub fn f(mut k: @) { let p = k.public_key(); touch(&p); k.next(); }')
    w('NTRU public key trits outlive the key', ('E0597', 'E0505'), 'pub fn f(k: ntru::PublicKey) { let p = k.trits(); drop(k); touch(&p); }', 'pub fn f(k: ntru::PublicKey) { let p = k.trits(); touch(&p); drop(k); }')
    w('NTRU public key id outlives the key', ('E0597', 'E0505'), 'pub fn f(k: ntru::PublicKey) { let p = k.id(); drop(k); touch(&p); }', 'pub fn f(k: ntru::PublicKey) { let p = k.id(); touch(&p); drop(k); }')
    return W


def compile(rlib, src, d, name):
    p = os.path.join(d, name + '.rs')
    with open(p, 'w') as f:
        f.write(src)
    r = subprocess.run([os.path.join(harness.sysroot(), 'bin', 'rustc'), p, '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=json',
                        '--extern', 'iota_mam=' + rlib, '-o', os.path.join(d, name + '.rmeta')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
    codes = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error':
            c = (m.get('code') or {}).get('code')
            codes.append(c or ('lifetime' if 'lifetime' in m.get('message', '') else m.get('message', '')[:80]))
    return r.returncode, [c for c in codes if not c.startswith('aborting')]


def programs(g):
    d = tempfile.mkdtemp(prefix='borrow.', dir=harness.BUILD)
    try:
        rlib = os.path.join(d, 'libiota_mam.rmeta')
        r = subprocess.run([os.path.join(harness.sysroot(), 'bin', 'rustc'), os.path.join(harness.REPO, 'src', 'lib.rs'), '--edition', '2018', '--crate-type', 'lib',
                            '--crate-name', 'iota_mam', '--emit=metadata', '-Awarnings', '-o', rlib], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
        if r.returncode:
            raise Missing('metadata of the crate: ' + r.stderr[:200])
        W = [(n, c, PRE + b.replace('@', 'mss::PrivateKey'), PRE + k.replace('@', 'mss::PrivateKey')) for n, c, b, k in witnesses()]
        with ThreadPoolExecutor(8) as ex:
            bad = list(ex.map(lambda i: compile(rlib, W[i][2], d, 'w%d' % i), range(len(W))))
            good = list(ex.map(lambda i: compile(rlib, W[i][3], d, 'c%d' % i), range(len(W))))
        for (n, codes, bsrc, _), (rb, cb), (rg, cg) in zip(W, bad, good):
            k = 'rejected: %s' % n
            if rg != 0:
                g.undecided(PIDS, k, 'its corrected twin does not compile either: %s' % cg[:3], '')
            elif rb == 0:
                g.check(PIDS, False, k, 'this program is accepted: ' + bsrc[len(PRE):], 'src/trits/slice.rs')
            elif set(cb) - set(codes):
                g.undecided(PIDS, k, 'rejected for another reason: %s' % cb[:3], '')
            else:
                g.check(PIDS, True, k, ', '.join(cb), '')
        g.sites += 2 * len(W)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(g):
    g.guard(signatures, 'lifetimes of signatures', PIDS)
    g.guard(provenance, 'provenance of returned borrows', PIDS)
    g.guard(mutability, 'rights of pointers', PIDS)
    g.guard(layout, 'layout of slices', PIDS)
    g.guard(programs, 'witness programs', PIDS)
