"""Building and reading struct values by field name."""
from .vals import *
from .group import Missing


# what the types consist of; what else a type may get (a cached value, say) need not be part of its meaning
BASE = {
    'app::core::AppInst': ('id',),
    'app::core::MsgId': ('id',),
    'mss::mss::PrivateKeyT': ('sk', 'mt'),
    'mss::mss::PublicKey': ('pk',),
    'mss::mss::SK': ('prng', 'nonce'),
    'mss::mt::APath': ('skn', 'nodes'),
    'mss::mtcomplete::MT': ('height', 'skn', 'nodes'),
    'mss::mttraversal::MT': ('height', 'root', 'apath', 'stacks'),
    'mss::mttraversal::Node': ('d', 'i', 'h'),
    'mss::mttraversal::Stack': ('d', 'i', 's'),
    'ntru::PrivateKey': ('sk', 'f'),
    'ntru::PublicKey': ('pk', 'h'),
    'pb3::cmd::absorb::WrapAbsorb': ('s',),
    'pb3::cmd::mask::WrapMask': ('s',),
    'pb3::cmd::skip::WrapSkip': (),
    'pb3::typ::size::Size': ('0',),
    'pb3::typ::trint::Trint18': ('0',),
    'pb3::typ::trint::Trint3': ('0',),
    'pb3::typ::trint::Trint6': ('0',),
    'pb3::typ::trint::Trint9': ('0',),
    'pb3::typ::trytes::Trytes': ('0',),
    'poly::Poly': ('coeffs',),
    'prng::PRNG': ('secret_key',),
    'spongos::Outer': ('pos', 'trits'),
    'spongos::Spongos': ('s', 'outer'),
    'trits::slice::SliceRange': ('n', 'd'),
    'trits::slice::TritSliceMutT': ('r', 'p', 'phantom'),
    'trits::slice::TritSliceT': ('r', 'p', 'phantom'),
    'trits::trits::TritsT': ('n', 'buf'),
    'troika::T27': ('0', '1'),
    'troika::Troika': ('state',),
    'troika::TroikaSponge': ('transform', 'rate', 'index'),
    'wots::PrivateKey': ('sk',),
    'wots::PublicKey': ('pk',),
}


def extra(P, path, names):
    """The fields among names which the type did not always have."""
    b = BASE.get(path)
    return () if b is None or not set(b) <= set(names) else tuple(n for n in names if n not in b)


def fields(P, path):
    c = P.__dict__.setdefault('_shape', {})
    if path not in c:
        c[path] = None
        for t in P.types:
            if t.get('k') == 'adt' and t.get('path') == path and t.get('variants'):
                c[path] = [f['n'] for f in t['variants'][0]['f']]
                break
    if c[path] is None:
        raise Missing('type ' + path)
    return c[path]


def index(P, path, name):
    f = fields(P, path)
    if name not in f:
        raise Missing('field %s.%s' % (path, name))
    return f.index(name)


def make(P, path, **kw):
    f = fields(P, path)
    if set(f) != set(kw):
        raise Missing('fields of %s: %s' % (path, ', '.join(f)))
    return Agg(path, None, [kw[n] for n in f])


def added(P, path, *known):
    """Fields the type has besides the known ones."""
    f = fields(P, path)
    return [n for n in f if n not in known] if set(known) <= set(f) else []


def put(P, v, path, **kw):
    """The value with some fields replaced."""
    f = list(v.f)
    for n, x in kw.items():
        f[index(P, path, n)] = x
    return Agg(v.tag, v.var, f)


def made(w, path, args):
    """The value a constructor makes in the world's state (which moves on with it)."""
    from .word import body
    n = len(w.it.panics)
    outs = w.it.exec_body(w.st.copy(), body(w.g, path), args)
    del w.it.panics[n:]
    if len(outs) != 1:
        raise Missing('one outcome of %s' % path)
    w.st.become(outs[0][0])
    return outs[0][1]


def get(P, v, path, name):
    return v.f[index(P, path, name)]
