"""Message layer: writers, readers and sizes of the header, the channel messages and the PB3 fields are executed
abstractly and compared with the documented PB3 transcript."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from . import msgs as M
from .group import Group, Missing, panic_sites
from .models import eq_content, some, ok, err, NONE, deref
from .msgs import SIZE_MAX, WOTS_SIG, size_piece, size_len

CH = 'app::channel::msg::'


# ------------------------------------------------------------ PB3 transcript oracle
class Tr:
    """Interpreter of PB3 commands on sponge terms. Writer mode collects the codeword, reader mode consumes one."""

    def __init__(self, st, s, read=None):
        self.st = st
        self.s = s
        self.out = ()
        self.rd = read          # function (off, n) -> content, or None
        self.off = Lin(0)
        self.checks = []        # formulas that an Ok result must have established

    def put(self, c):
        self.out = norm(self.out + tuple(c))

    def take(self, n):
        c = self.rd(self.off, L(n))
        self.off = self.off + n
        return c

    def ext(self, c):
        self.s = sp_abs(self.s, self.st.norm_content(c))

    def absorb(self, c):
        self.put(c)
        self.ext(c)

    def r_absorb(self, n):
        c = self.take(n)
        self.ext(c)
        return c

    def mask(self, c):
        self.s, e = C.encrypt(self.st, self.s, c)
        self.put(e)

    def r_mask(self, n):
        c = self.take(n)
        self.s, p = C.decrypt(self.st, self.s, c)
        return p

    def commit(self):
        self.s = sp_com(self.s)

    def squeeze(self, n):
        c = sq_content(self.s, n)
        self.s = sp_sqs(self.s, n)
        return c

    def join(self, slink):
        self.ext(sq_content(slink, 243))

    def mac(self):
        self.commit()
        self.put(self.squeeze(243))

    def r_mac(self):
        self.commit()
        t = self.squeeze(243)
        f = self.take(243)
        self.checks.append(('mac', self.st.norm_content(t), self.st.norm_content(f)))

    def tag(self):
        self.commit()
        return self.st.norm_content(self.squeeze(234))

    def mssig(self, tag, key):
        n = Lin(18 + WOTS_SIG) + atom('height', (key,), 0, 20) * 243
        self.put(((n, 'sig', (key, tag), Lin(0)),))

    def kem(self, pk, key, nonce, prng):
        st = self.st
        data = (st.norm_content(pk), self.s, st.norm_content(key), st.norm_content(nonce), prng)
        self.put(((Lin(9216), 'kem', data, Lin(0)),))
        s1 = sp_com(sp_abs(self.s, ((Lin(9216), 'rh', data, Lin(0)),)))
        s2, _ = C.encrypt(st, s1, data[2])
        self.s = sp_sqs(s2, 781)

    def r_kem(self, me):
        """Returns the decapsulated key; records the check."""
        st = self.st
        y = st.norm_content(self.take(9216))
        key = ('kemdec', me, self.s, y)
        self.checks.append(('kem', key))
        self.s = ('kemst', key)
        return ((Lin(243), 'kemkey', key, Lin(0)),)

    def commit_(self):
        self.commit()


def content_of(it, st, v):
    """Content of a Trits value, or of a newtype around one (also behind references)."""
    while isinstance(v, Ptr):
        v = it.read_path(st, v)
    if isinstance(v, Sym):
        v = it.expand(st, v)
    while isinstance(v, Agg) and v.tag != 'trits::trits::TritsT':
        x = v.f[0]
        v = it.expand(st, x) if isinstance(x, Sym) else x
        while isinstance(v, Ptr):
            v = it.read_path(st, v)
    n = v.f[0]
    if isinstance(n, Sym):
        n = it.expand(st, n)
    return st.norm_content(it.get_content(st, (v.f[1].obj, ()), Lin(0), n)), n


class Env:
    """One abstract run set-up: state, buffer, sponges and named objects."""

    def __init__(self, P, hooks=None):
        H = M.message_hooks()
        H['std::collections::HashMap::get'] = self.map_get
        H[('fn', None)] = self.lookup
        if hooks:
            H.update(hooks)
        self.P = P
        self.it = I.Interp(P, H)
        self.st = I.State()
        self.links = None         # link information the lookup function returns
        self.maps = {}
        self.hostile = False
        self.it.alloc_hook = self.on_alloc
        self.big_allocs = []
        self.budget = None

    def on_alloc(self, it, st, n, what):
        if self.budget is None:
            return
        if st.decide(f_ge(self.budget + 20000 - n)) is not True:
            fn = it.stack[-1][0] if it.stack else None
            self.big_allocs.append((fn.npath if fn else '?', what, st.canon(n)))

    # -- callbacks
    def lookup(self, it, st, args, f):
        b, o, n = it.sl(st, args[0])
        c = st.norm_content(it.get_content(st, b, o, n))
        st.event('lookup', c)
        k = ('op', ('lookup', c))
        out = []
        if not self.hostile:
            if not st.same_content(c, self.links[0]):
                return [(st, NONE)]
            return [(st, some(Agg('tuple', None, (Sp(self.links[1]), self.link_info(it, st)))))]
        a = st.copy()
        for s in a.assume(k, False):
            out.append((s, NONE))
        for s in st.assume(k, True):
            out.append((s, some(Agg('tuple', None, (Sp(('slink',)), self.link_info(it, s))))))
        return out

    def link_info(self, it, st):
        k = self.info
        if k == 'unit':
            return UNIT
        if k == 'mss':
            kk = self.info_key
            o = ('S', ('linkpk',))
            tr = it.mk_trits(st, 243, self.info_content, ('S', ('linkpkbuf',)))
            return Agg('mss::mss::PublicKey', None, (tr,))
        if k == 'ntru':
            tr = it.mk_trits(st, 9216, self.info_content, ('S', ('linknpkbuf',)))
            return Agg('ntru::PublicKey', None, (tr, Opq(('polyof',))))

    def map_get(self, it, st, args, callee, dt):
        m = M.obj_key(args[0])
        ent = self.maps.get(m)
        kc, _ = content_of(it, st, args[1])
        st.event('map', kc)
        out = []
        if not self.hostile:
            for (k, v) in ent or []:
                if st.same_content(k, kc):
                    return [(st, some(v))]
            return [(st, NONE)]
        a = st.copy()
        key = ('op', ('mapget', m, kc))
        for s in a.assume(key, False):
            out.append((s, NONE))
        t = it.types[dt]
        # Option<&V>
        vt = t['args'][0]
        for s in st.assume(key, True):
            v = it.sym(s, vt, ('mapv', m, kc))
            if isinstance(v, Ptr):
                x = it.read_path(s, v)
                if isinstance(x, Agg) and x.tag == 'trits::trits::TritsT':
                    for z in s.assume(f_eq(x.f[0] - 243), True):
                        out.append((z, some(v)))
                    continue
            out.append((s, some(v)))
        return out

    # -- objects
    def body(self, path):
        b = self.P.body(path)
        if b is None:
            raise Missing(path)
        return b

    def ref(self, b, i, name):
        """Symbolic value for parameter i of body b."""
        return self.it.sym(self.st, b.locals[i + 1][0], (name,))

    def trits_ref(self, b, i, name, n):
        """Symbolic reference parameter to (a newtype of) Trits of length n."""
        v = self.ref(b, i, name)
        _, sz = content_of(self.it, self.st, v)
        r = self.st.assume(f_eq(sz - n), True)
        assert r and r[0] is self.st
        return v

    def trits_slice(self, name, n):
        tr = self.it.mk_trits(self.st, n, ((L(n), 'src', (name,), Lin(0)),), ('S', (name,)))
        return self.it.mk_slice(self.st, tr)

    def sponge(self, name):
        o = ('S', ('sponge', name))
        self.st.mem[o] = Sp((name,))
        return Ptr(o)

    def buffer(self, name, n, d, mut, content=None):
        """&mut TritSlice(Mut) at offset d of a buffer of n trits."""
        bo = ('S', (name, 'buf'))
        self.st.mem[bo] = Region(n, content if content is not None else ((L(n), 'src', (name,), Lin(0)),))
        so = ('S', (name, 'slice'))
        tag = 'trits::slice::TritSliceMutT' if mut else 'trits::slice::TritSliceT'
        self.st.mem[so] = Agg(tag, None, [Agg('trits::slice::SliceRange', None, [L(n), L(d)]), Ptr(bo, (('e', Lin(0)),)), UNIT])
        return Ptr(so)


def mss_key_content(key):
    return ((Lin(243), 'msspk', key, Lin(0)),)


def slice_d(it, st, p):
    v = it.read_path(st, p)
    r = v.f[0]
    return r.f[1], r.f[0], v.f[1]


class Msg:
    """A message: how to call its functions and its transcript oracle."""
    name = None
    mod = None
    info = 'unit'
    readers = ('unwrap',)

    def p(self, fn):
        return '%s::%s' % (self.mod, fn)

    def hostile_args(self, e, fn):
        """Reader arguments before (s, b)."""
        return self.reader_args(e, fn)


class Packet(Msg):
    def payloads(self, e, b, i):
        out = []
        for k, nm in ((i, 'public'), (i + 1, 'masked')):
            v = e.ref(b, k, nm)
            c, n = content_of(e.it, e.st, v)
            t = fresh('trytes_' + nm, 0, SIZE_MAX)
            r = e.st.assume(f_eq(n - t * 3), True)
            assert r
            out.append((v, t))
        return out

    def write_fields(self, e, st):
        return [content_of(e.it, st, v)[0] for v, _ in self.pay]

    def result_fields(self, e, st, v, fn):
        return [content_of(e.it, st, x)[0] for x in v.f]

    def head(self, e, st, t):
        t.put(content_of(e.it, st, self.msgid)[0])
        t.join(('slink',))
        for (v, k), op in zip(self.pay, (t.absorb, t.mask)):
            c, n = content_of(e.it, st, v)
            op((size_piece(st.canon(k)),) + c)

    def r_head(self, e, st, t, fields):
        t.take(81)
        t.join(('slink',))
        pub, masked = fields
        n = clen(pub)
        k = st.canon(n)
        sz = self.sizes[0]
        t.r_absorb(size_len(sz))
        got = t.r_absorb(sz * 3)
        m = self.sizes[1]
        t.r_mask(size_len(m))
        got2 = t.r_mask(m * 3)
        return [got, got2]

    def third(self, st, n):
        """Number of trytes of a content whose length is three times an atom or constant."""
        n = st.canon(n)
        q = I.pos_div(n, 3)
        return q if st.same(q * 3, n) else None


class TaggedPacket(Packet):
    name = 'TaggedPacket'
    mod = CH + 'tagged_packet'
    verify = ('mac',)

    def sizes_args(self, e):
        return [k for _, k in self.pay]

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.msgid = e.trits_ref(b, 0, 'msgid', 81)
        self.pay = self.payloads(e, b, 2)
        return [self.msgid, e.sponge('slink')] + [v for v, _ in self.pay]

    def write(self, e, st, t):
        self.head(e, st, t)
        t.mac()

    def reader_args(self, e, fn):
        return [FnSym('lookup')]

    def link(self, e, st):
        return content_of(e.it, st, self.msgid)[0]

    def read(self, e, st, t, fields, fn, v):
        got = self.r_head(e, st, t, fields)
        t.r_mac()
        return got


class SignedPacket(Packet):
    name = 'SignedPacket'
    mod = CH + 'signed_packet'
    readers = ('unwrap_recover', 'unwrap_verify')

    def sizes_args(self, e):
        return [k for _, k in self.pay] + [self.sk]

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.msgid = e.trits_ref(b, 0, 'msgid', 81)
        self.pay = self.payloads(e, b, 2)
        self.sk = e.ref(b, 4, 'sk')
        return [self.msgid, e.sponge('slink')] + [v for v, _ in self.pay] + [self.sk]

    def write(self, e, st, t):
        self.head(e, st, t)
        t.mssig(t.tag(), M.obj_key(self.sk))

    def reader_args(self, e, fn):
        a = [FnSym('lookup')]
        if fn == 'unwrap_verify':
            b = e.body(self.p(fn))
            o = ('S', ('vpk',))
            c = mss_key_content(M.obj_key(self.sk)) if not e.hostile else ((Lin(243), 'src', ('vpk',), Lin(0)),)
            tr = e.it.mk_trits(e.st, 243, c, ('S', ('vpkbuf',)))
            e.st.mem[o] = Agg('mss::mss::PublicKey', None, (tr,))
            a.append(Ptr(o))
        return a

    def link(self, e, st):
        return content_of(e.it, st, self.msgid)[0]

    def write_fields(self, e, st):
        r = Packet.write_fields(self, e, st)
        return r

    def expect(self, e, st, fn):
        r = self.write_fields(e, st)
        if fn == 'unwrap_recover':
            r = [mss_key_content(M.obj_key(self.sk))] + r
        return r

    def read(self, e, st, t, fields, fn, v):
        if fn == 'unwrap_recover':
            pk, fields = fields[0], fields[1:]
        got = self.r_head(e, st, t, fields)
        tag = t.tag()
        n = self.sig_sizes(st)[0]
        c = t.take(n)
        rec = ((Lin(243), 'recov', (tag, st.norm_content(c)), Lin(0)),)
        if fn == 'unwrap_recover':
            return [rec] + got
        t.checks.append(('sig', rec, ((Lin(243), 'src', ('vpk',), Lin(0)),)))
        return got


def _sig_sizes(self, st):
    return [x[3] for x in st.events() if x[0] == 'recover']


Msg.sig_sizes = _sig_sizes


class Unsubscribe(Msg):
    name = 'Unsubscribe'
    mod = CH + 'unsubscribe'
    info = 'ntru'

    def sizes_args(self, e):
        return []

    def build(self, e):
        self.msgid = e.trits_slice('msgid', 81)
        return [self.msgid, e.sponge('slink')]

    def write(self, e, st, t):
        b, o, n = e.it.sl(st, self.msgid)
        t.put(e.it.get_content(st, b, o, n))
        t.join(('slink',))
        t.mac()

    def reader_args(self, e, fn):
        e.info_content = ((Lin(9216), 'src', ('linkinfo',), Lin(0)),)
        return [FnSym('lookup')]

    def link(self, e, st):
        b, o, n = e.it.sl(st, self.msgid)
        return st.norm_content(e.it.get_content(st, b, o, n))

    def expect(self, e, st, fn):
        return [e.info_content]

    def result_fields(self, e, st, v, fn):
        return [content_of(e.it, st, v)[0]]

    def read(self, e, st, t, fields, fn, v):
        t.take(81)
        t.join(('slink',))
        t.r_mac()
        return [e.info_content]


class Subscribe(Unsubscribe):
    name = 'Subscribe'
    mod = CH + 'subscribe'
    info = 'unit'

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.msgid = e.trits_slice('msgid', 81)
        self.prng = e.ref(b, 2, 'prng')
        self.nonce = e.trits_slice('nonce', fresh('noncelen', 0, 1 << 30))
        self.sub = e.ref(b, 4, 'sub_pk')
        _, n = content_of(e.it, e.st, self.sub)
        e.st.assume(f_eq(n - 9216), True)
        c, _ = content_of(e.it, e.st, self.sub)
        e.st.assume(('op', ('ntruvalid', c)), True)
        self.skp = (('S', ('ch_sk',)), ())
        tr = e.it.mk_trits(e.st, 9216, ((Lin(9216), 'ntrupk', self.skp, Lin(0)),), ('S', ('chpkbuf',)))
        o = ('S', ('chpk',))
        e.st.mem[o] = Agg('ntru::PublicKey', None, (tr, Opq(('polyof',))))
        return [self.msgid, e.sponge('slink'), self.prng, self.nonce, self.sub, Ptr(o)]

    def write(self, e, st, t):
        b, o, n = e.it.sl(st, self.msgid)
        t.put(e.it.get_content(st, b, o, n))
        t.join(('slink',))
        b, o, n = e.it.sl(st, self.nonce)
        nc = st.norm_content(e.it.get_content(st, b, o, n))
        pr = M.obj_key(self.prng)
        key = ((Lin(243), 'prng', (pr, nc), Lin(0)),)
        t.kem(((Lin(9216), 'ntrupk', self.skp, Lin(0)),), key, nc, pr)
        t.commit()
        t.mask(content_of(e.it, st, self.sub)[0])
        t.mac()

    def reader_args(self, e, fn):
        b = e.body(self.p(fn))
        return [FnSym('lookup'), e.ref(b, 1, 'ch_sk')]

    def expect(self, e, st, fn):
        return [content_of(e.it, st, self.sub)[0]]

    def read(self, e, st, t, fields, fn, v):
        t.take(81)
        t.join(('slink',))
        t.r_kem((('S', ('ch_sk',)), ()))
        t.commit()
        pk = t.r_mask(9216)
        t.checks.append(('op', ('ntruvalid', st.norm_content(pk))))
        t.r_mac()
        return [pk]


class Announce(Msg):
    name = 'Announce'
    mod = CH + 'announce'

    def __init__(self, has):
        self.has = has
        self.variant = 'with NTRU key' if has else 'without NTRU key'

    def sizes_args(self, e):
        return [self.sk, bool(self.has)]

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.sk = e.ref(b, 0, 'mss_sk')
        o = ('S', ('optpk',))
        if self.has:
            tr = e.it.mk_trits(e.st, 9216, ((Lin(9216), 'src', ('npk',), Lin(0)),), ('S', ('npkbuf',)))
            e.st.assume(('op', ('ntruvalid', ((Lin(9216), 'src', ('npk',), Lin(0)),))), True)
            e.st.mem[o] = some(Agg('ntru::PublicKey', None, (tr, Opq(('polyof',)))))
        else:
            e.st.mem[o] = NONE
        return [self.sk, Ptr(o)]

    def write(self, e, st, t):
        t.absorb(mss_key_content(M.obj_key(self.sk)))
        if self.has:
            t.absorb(((Lin(3), 'const', (1, 0, 0), Lin(0)),))
            t.absorb(((Lin(9216), 'src', ('npk',), Lin(0)),))
        else:
            t.absorb(zero(3))
        t.mssig(t.tag(), M.obj_key(self.sk))

    def reader_args(self, e, fn):
        return []

    def expect(self, e, st, fn):
        return [mss_key_content(M.obj_key(self.sk))] + ([((Lin(9216), 'src', ('npk',), Lin(0)),)] if self.has else [])

    def result_fields(self, e, st, v, fn):
        out = [content_of(e.it, st, v.f[0])[0]]
        o = v.f[1]
        if o.var == 1:
            out.append(content_of(e.it, st, o.f[0])[0])
        return out

    def read(self, e, st, t, fields, fn, v):
        pk = t.r_absorb(243)
        tc = t.r_absorb(3)
        val = C.get_value(e.it, st, 3, tc)
        out = [pk]
        if len(fields) == 2:
            t.checks.append(f_eq(val - 1))
            npk = t.r_absorb(9216)
            t.checks.append(('op', ('ntruvalid', st.norm_content(npk))))
            out.append(npk)
        else:
            t.checks.append(f_eq(val))
        tag = t.tag()
        c = t.take(self.sig_sizes(st)[0])
        t.checks.append(('sig', ((Lin(243), 'recov', (tag, st.norm_content(c)), Lin(0)),), st.norm_content(pk)))
        return out


class ChangeKey(Msg):
    name = 'ChangeKey'
    mod = CH + 'change_key'
    info = 'mss'

    def sizes_args(self, e):
        return [self.sk, self.lsk]

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.msgid = e.trits_slice('msgid', 81)
        self.sk = e.ref(b, 2, 'mss_sk')
        self.lsk = e.ref(b, 3, 'linked_sk')
        return [self.msgid, e.sponge('slink'), self.sk, self.lsk]

    def write(self, e, st, t):
        b, o, n = e.it.sl(st, self.msgid)
        t.put(e.it.get_content(st, b, o, n))
        t.join(('slink',))
        t.absorb(mss_key_content(M.obj_key(self.sk)))
        tag = t.tag()
        t.mssig(tag, M.obj_key(self.sk))
        t.mssig(tag, M.obj_key(self.lsk))

    def reader_args(self, e, fn):
        e.info_key = None
        e.info_content = mss_key_content(M.obj_key(self.lsk)) if not e.hostile else ((Lin(243), 'src', ('linkpk',), Lin(0)),)
        return [FnSym('lookup')]

    def link(self, e, st):
        b, o, n = e.it.sl(st, self.msgid)
        return st.norm_content(e.it.get_content(st, b, o, n))

    def expect(self, e, st, fn):
        return [mss_key_content(M.obj_key(self.sk))]

    def result_fields(self, e, st, v, fn):
        return [content_of(e.it, st, v)[0]]

    def read(self, e, st, t, fields, fn, v):
        t.take(81)
        t.join(('slink',))
        pk = t.r_absorb(243)
        tag = t.tag()
        n1, n2 = self.sig_sizes(st)[:2]
        c1 = t.take(n1)
        c2 = t.take(n2)
        t.checks.append(('sig', ((Lin(243), 'recov', (tag, st.norm_content(c1)), Lin(0)),), st.norm_content(pk)))
        t.checks.append(('sig', ((Lin(243), 'recov', (tag, st.norm_content(c2)), Lin(0)),), e.info_content))
        return [pk]


class Header(Packet):
    name = 'Header'
    mod = 'app::core::msg::header'

    def sizes_args(self, e):
        return [self.pay[0][1]]

    def build(self, e):
        b = e.body(self.p('wrap'))
        v = e.ref(b, 0, 'typ')
        c, n = content_of(e.it, e.st, v)
        t = fresh('trytes_typ', 0, SIZE_MAX)
        e.st.assume(f_eq(n - t * 3), True)
        self.pay = [(v, t)]
        self.appinst = e.trits_ref(b, 1, 'appinst', 243)
        self.msgid = e.trits_ref(b, 2, 'msgid', 81)
        return [v, self.appinst, self.msgid]

    def write(self, e, st, t):
        t.absorb(((Lin(3), 'const', (1, 0, 0), Lin(0)),))
        v, k = self.pay[0]
        c, n = content_of(e.it, st, v)
        t.absorb((size_piece(st.canon(k)),) + c)
        t.ext(content_of(e.it, st, self.appinst)[0])
        t.ext(content_of(e.it, st, self.msgid)[0])

    def reader_args(self, e, fn):
        if e.hostile:
            b = e.body(self.p('unwrap'))
            self.appinst = e.trits_ref(b, 0, 'appinst', 243)
            self.msgid = e.trits_ref(b, 1, 'msgid', 81)
        return [self.appinst, self.msgid]

    def result_fields(self, e, st, v, fn):
        return [content_of(e.it, st, v)[0]]

    def read(self, e, st, t, fields, fn, v):
        tc = t.r_absorb(3)
        t.checks.append(f_eq(C.get_value(e.it, st, 3, tc) - 1))
        sz = self.sizes[0]
        t.r_absorb(size_len(sz))
        got = t.r_absorb(sz * 3)
        t.ext(content_of(e.it, st, self.appinst)[0])
        t.ext(content_of(e.it, st, self.msgid)[0])
        return [got]


MESSAGES = [Header, lambda: Announce(False), lambda: Announce(True), ChangeKey, SignedPacket, TaggedPacket, Subscribe, Unsubscribe]


def where(e, fn):
    b = e.P.body(fn)
    return b.where() if b else '?'


def run_message(g, mk):
    P = g.P
    m = mk()
    nm = m.name + (' ' + m.variant if getattr(m, 'variant', None) else '')
    # ---- writer
    e = Env(P)
    it, st = e.it, e.st
    wrap = e.body(m.p('wrap'))
    args = m.build(e)
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st.assume(f_ge(N - d0), True)
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, True)
    szb = e.body(m.p('sizeof'))
    Ls = it.exec_body(st, szb, m.sizes_args(e))
    W = where(e, m.p('wrap'))
    for p in it.panics:
        g.check(('C03', 'C01'), False, '%s: sizeof panics: %s' % (nm, p.what), 'sizeof can panic: %r' % p, p.where)
    it.panics.clear()
    outs = []
    for st1, Lv in Ls:
        for st2 in st1.assume(f_ge(N - d0 - Lv), True):
            for st3, _ in it.exec_body(st2, wrap, args + [s, b]):
                outs.append((st3, Lv))
    for p in it.panics:
        g.check(('C03', 'C01'), False, '%s: wrap panics in %s: %s' % (nm, p.fn, p.what),
                'wrap into a buffer of sizeof trits is not shown to succeed: %r' % p, p.where)
    g.check(('C01', 'C02', 'C03'), outs, '%s: wrap returns' % nm, 'wrap never returns', W)
    npan = len(it.panics)
    for st3, Lv in outs:
        d, n, ptr = slice_d(it, st3, b)
        g.check(('C03', 'C01'), st3.same(d, d0 + Lv), '%s: wrap writes sizeof trits' % nm,
                'wrap advances by %r, sizeof is %r' % (st3.canon(d - d0), st3.canon(Lv)), W)
        bo = ('S', ('buf', 'buf'))
        reg = st3.mem[bo]
        L_ = d - d0
        src = lambda o, k: ((L(k), 'src', ('buf',), L(o)),)
        pre = it.read_region(st3, reg, Lin(0), d0)
        post = it.read_region(st3, reg, d, N - d)
        g.check(('C03', 'C13'), st3.same_content(pre, src(0, d0)) and st3.same_content(post, src(d, N - d)),
                '%s: wrap writes only its part of the buffer' % nm, 'the buffer changes outside the written trits', W)
        t = Tr(st3, ('s0',))
        m.write(e, st3, t)
        got = it.read_region(st3, reg, d0, L_)
        sp = it.read_path(st3, s).t
        g.check(('C02', 'C01'), st3.same_content(got, t.out), '%s: encoded fields follow the PB3 description' % nm,
                'written trits %s; documented %s' % (show(st3.norm_content(got)), show(st3.norm_content(t.out))), W)
        g.check(('C02', 'C01'), st3.same(sp, t.s), '%s: writer sponge transcript follows the PB3 description' % nm,
                'sponge after wrap %s; documented %s' % (show(st3.canon_term(sp)), show(st3.canon_term(t.s))), W)
        # ---- reader on the written trits
        for fn in m.readers:
            rb = e.body(m.p(fn))
            R = where(e, m.p(fn))
            st4 = st3.copy()
            e.st = st4
            e.hostile = False
            e.links = (m.link(e, st4), ('slink',)) if hasattr(m, 'link') else None
            e.info = m.info
            e.info_key = None
            ra = m.reader_args(e, fn)
            so = ('S', ('sponge', 'reader'))
            st4.mem[so] = Sp(('s0',))
            ro = ('S', ('rbuf', 'slice'))
            st4.mem[ro] = Agg('trits::slice::TritSliceT', None, [Agg('trits::slice::SliceRange', None, [N, d0]), ptr, UNIT])
            it.panics.clear()
            rs = it.exec_body(st4, rb, ra + [Ptr(so), Ptr(ro)])
            for p in it.panics:
                g.check(('C01',), False, '%s: %s panics on a wrapped message in %s: %s' % (nm, fn, p.fn, p.what), 'reader may panic: %r' % p, p.where)
            okc = 0
            for st5, v in rs:
                if not isinstance(v, Agg) or v.var != 0:
                    g.check(('C01',), False, '%s: %s accepts every wrapped message' % (nm, fn), 'reader may return an error: %r' % (v,), R)
                    continue
                okc += 1
                exp = m.expect(e, st5, fn) if hasattr(m, 'expect') else m.write_fields(e, st5)
                val = v.f[0]
                fl = m.result_fields(e, st5, val, fn) if exp else []
                good = len(exp) == len(fl) and all(st5.same_content(a, c) for a, c in zip(exp, fl))
                g.check(('C01',), good, '%s: %s returns the wrapped fields' % (nm, fn),
                        'reader returns %s, wrapped %s' % (show(fl), show(exp)), R)
                d2, _, _ = slice_d(it, st5, Ptr(ro))
                g.check(('C01',), st5.same(d2, d), '%s: %s consumes what wrap wrote' % (nm, fn),
                        'reader ends at %r, writer at %r' % (st5.canon(d2), st5.canon(d)), R)
                rsp = st5.mem[so].t
                g.check(('C01',), st5.same(rsp, sp), '%s: %s leaves the sponge as wrap did' % (nm, fn),
                        'reader sponge %s; writer sponge %s' % (show(st5.canon_term(rsp)), show(st5.canon_term(sp))), R)
            g.check(('C01',), okc, '%s: %s succeeds on a wrapped message' % (nm, fn), 'no successful outcome', R)
    g.use(it)
    if getattr(m, 'no_hostile', False):
        return
    # ---- reader on arbitrary input
    for fn in m.readers:
        hostile(g, mk, fn)


def hostile(g, mk, fn):
    m = mk()
    if getattr(m, 'variant', '') == 'without NTRU key':
        return
    nm = m.name
    e = Env(g.P)
    e.hostile = True
    e.info = m.info
    e.info_key = None
    it, st = e.it, e.st
    rb = e.body(m.p(fn))
    R = where(e, m.p(fn))
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st.assume(f_ge(N - d0), True)
    ra = m.reader_args(e, fn)
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, False)
    e.budget = N - d0
    rs = it.exec_body(st, rb, ra + [s, b])
    panic_sites(g, ('C05',), it, '%s::%s on arbitrary input' % (nm, fn))
    for f, what, n in e.big_allocs:
        g.check(('C05',), False, '%s::%s: allocation in %s not bounded by the input' % (nm, fn, f), '%s of %r elements' % (what, n), R)
    g.check(('C05',), True, '%s::%s analysed on arbitrary input (%d outcomes)' % (nm, fn, len(rs)))
    src = lambda o, k: ((L(k), 'src', ('buf',), L(o)),)
    nok = 0
    for st5, v in rs:
        if not isinstance(v, Agg) or v.var != 0:
            continue
        nok += 1
        val = v.f[0]
        fl = m.result_fields(e, st5, val, fn)
        m.sizes = [ev[1] for ev in st5.events() if ev[0] == 'size']
        t = Tr(st5, ('s0',), lambda o, k: src(d0 + o, k))
        try:
            got = m.read(e, st5, t, fl, fn, val)
        except (IndexError, ValueError) as x:
            g.check(('C04', 'C02'), False, '%s::%s follows the PB3 description on arbitrary input' % (nm, fn), 'fields are missing on a successful path', R)
            continue
        for ck in t.checks:
            cond, what = decide_check(it, st5, ck)
            g.check(check_pids(ck), cond, '%s::%s: Ok implies %s' % (nm, fn, what), 'a path returns Ok without this check having succeeded: %s' % show(ck), R)
        good = len(got) == len(fl) and all(st5.same_content(a, c) for a, c in zip(got, fl))
        g.check(('C02',), good, '%s::%s returns the documented fields' % (nm, fn), 'returns %s, documented %s' % (show(fl), show(got)), R)
        rsp = st5.mem[s.obj].t
        g.check(('C02',), st5.same(rsp, t.s), '%s::%s reader sponge transcript follows the PB3 description' % (nm, fn),
                'sponge after unwrap %s; documented %s' % (show(st5.canon_term(rsp)), show(st5.canon_term(t.s))), R)
        d2, _, _ = slice_d(it, st5, b)
        g.check(('C02', 'C04'), st5.same(d2, d0 + t.off), '%s::%s consumes the documented fields' % (nm, fn),
                'ends at %r, documented %r' % (st5.canon(d2), st5.canon(d0 + t.off)), R)
    g.check(('C04', 'C02'), nok, '%s::%s has a successful outcome' % (nm, fn), 'no path returns Ok', R)
    g.use(it)


def check_pids(ck):
    if isinstance(ck, tuple) and ck[0] in ('mac', 'sig'):
        return ('C04',)
    if isinstance(ck, tuple) and ck[0] == 'kem':
        return ('C04', 'C20')
    return ('C04', 'C19') if isinstance(ck, tuple) and ck[0] == 'op' else ('C02', 'C04', 'C05')


def decide_check(it, st, ck):
    if isinstance(ck, tuple) and ck[0] in ('mac', 'sig'):
        f = eq_content(it, st, ck[1], ck[2])
        what = 'the MAC tag squeezed over all fields equals the received tag' if ck[0] == 'mac' else 'the key recovered from the signature over all fields equals the expected key'
        return st.decide(f) is True, what
    if isinstance(ck, tuple) and ck[0] == 'kem':
        return st.decide(('op', ck[1])) is True, 'the key encapsulation check succeeded'
    if isinstance(ck, tuple) and ck[0] == 'op':
        return st.decide(ck) is True, 'the NTRU public key is valid'
    return st.decide(ck) is True, 'the fixed field has its documented value'


def show(t, depth=0):
    s = repr(t)
    return s if len(s) < 700 else s[:700] + '...'


MP = ('C01', 'C02', 'C03', 'C04', 'C05')


def run(g):
    for mk in MESSAGES:
        g.guard(run_message, mk().name, MP, (g, mk))
