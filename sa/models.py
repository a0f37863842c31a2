"""Models of the standard library operations the crate uses."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import iters

MODELS = {}
NONE = Agg('std::option::Option', 0, ())
OK, ERR = 0, 1


def some(v):
    return Agg('std::option::Option', 1, (v,))


def ok(v):
    return Agg('std::result::Result', 0, (v,))


def err(v):
    return Agg('std::result::Result', 1, (v,))


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def deref(it, st, p):
    """Value behind a reference (or the value itself)."""
    if isinstance(p, Ptr):
        return it.read_path(st, p)
    return p


def vec_of(it, st, p):
    v = deref(it, st, p)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


# ------------------------------------------------------------ panics
@model('core::panicking::panic', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_fmt', 'std::rt::panic_fmt',
       'std::rt::begin_panic', 'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::panicking::panic_const::panic_const_div_by_zero',
       'core::panicking::panic_str_2015', 'core::panicking::unreachable_display', 'core::panicking::panic_bounds_check', 'std::process::abort',
       'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::option::unwrap_failed', 'std::option::expect_failed',
       'std::result::unwrap_failed', 'core::slice::index::slice_index_fail', 'core::panicking::assert_failed', 'core::panicking::assert_matches_failed')
def m_panic(it, st, args, callee, dt):
    what = it.p.npath(callee.get('rpath') or callee['path']).split('::')[-1]
    msg = ''
    for a in args:
        v = a
        if isinstance(v, Ptr):
            try:
                v = it.read_path(st, v)
            except Exception:
                v = None
        if isinstance(v, StrV) and v.s:
            msg = v.s
            break
    it.panic(st, 'panic', what + (': ' + msg if msg else ''))
    return []


# ------------------------------------------------------------ formatting
def m_opq(it, st, args, callee, dt):
    st.na += 1
    return Opq(('fmt', st.na))


for _p in ('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'std::fmt::Arguments::new', 'std::fmt::Arguments::from_str',
           'core::fmt::rt::Argument::new_lower_hex', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1'):
    MODELS[_p] = m_opq


def m_fmt_result(it, st, args, callee, dt):
    st.na += 1
    return it.sym(st, dt, ('fmtres', st.na))


for _p in ('<std::fmt::Formatter as std::fmt::Write>::write_char', 'std::fmt::Formatter::debug_c_like_enum_write_str',
           'std::fmt::Formatter::debug_struct_field1_finish', 'std::fmt::Formatter::debug_tuple_field1_finish', 'std::fmt::Formatter::write_fmt',
           'std::fmt::Formatter::write_str', 'std::fmt::Formatter::debug_struct_fields_finish', 'std::fmt::Formatter::debug_struct_field2_finish'):
    MODELS[_p] = m_fmt_result


# ------------------------------------------------------------ Try / Option / Result plumbing
@model('<std::result::Result as std::ops::Try>::branch')
def m_branch_res(it, st, args, callee, dt):
    v = args[0]
    if v.var == 0:
        return Agg('std::ops::ControlFlow', 0, (v.f[0],))
    return Agg('std::ops::ControlFlow', 1, (Agg('std::result::Result', 1, (v.f[0],)),))


@model('<std::option::Option as std::ops::Try>::branch')
def m_branch_opt(it, st, args, callee, dt):
    v = args[0]
    if v.var == 1:
        return Agg('std::ops::ControlFlow', 0, (v.f[0],))
    return Agg('std::ops::ControlFlow', 1, (NONE,))


@model('<std::result::Result as std::ops::FromResidual>::from_residual')
def m_resid_res(it, st, args, callee, dt):
    v = args[0]
    if isinstance(v, Agg) and v.var == 1:
        # the error conversion is the identity for equal types, else interpret the body
        a = callee.get('targs') or []
        return Agg('std::result::Result', 1, (v.f[0],))
    return Agg('std::result::Result', 1, (Opq(('err',)),))


@model('<std::option::Option as std::ops::FromResidual>::from_residual')
def m_resid_opt(it, st, args, callee, dt):
    return NONE


@model('std::option::Option::ok_or')
def m_ok_or(it, st, args, callee, dt):
    v = args[0]
    return ok(v.f[0]) if v.var == 1 else err(args[1])


@model('std::option::Option::unwrap_or')
def m_unwrap_or(it, st, args, callee, dt):
    v = args[0]
    return v.f[0] if v.var == 1 else args[1]


@model('std::option::Option::is_some', 'std::option::Option::is_none', 'std::result::Result::is_ok', 'std::result::Result::is_err')
def m_is(it, st, args, callee, dt):
    v = deref(it, st, args[0])
    n = callee['name']
    return {'is_some': v.var == 1, 'is_none': v.var == 0, 'is_ok': v.var == 0, 'is_err': v.var == 1}[n]


@model('std::option::Option::as_ref', 'std::option::Option::as_mut')
def m_as_ref(it, st, args, callee, dt):
    v = deref(it, st, args[0])
    if v.var == 0:
        return NONE
    p = args[0]
    return some(Ptr(p.obj, p.path + (('v', 1), ('f', 0))))


# ------------------------------------------------------------ integers, cmp, mem, ptr
@model('std::cmp::min', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::Ord::max')
def m_min(it, st, args, callee, dt):
    a, b = args
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        return None
    lt = st.ge(b - a)
    if callee['name'] == 'min':
        return a if lt else b
    return b if lt else a


@model('std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::offset',
       'std::ptr::mut_ptr::<impl *mut T>::offset', 'std::intrinsics::offset', 'std::intrinsics::arith_offset', 'std::ptr::const_ptr::<impl *const T>::wrapping_add',
       'std::ptr::mut_ptr::<impl *mut T>::wrapping_add', 'std::ptr::const_ptr::<impl *const T>::wrapping_offset', 'std::ptr::mut_ptr::<impl *mut T>::wrapping_offset')
def m_add(it, st, args, callee, dt):
    return it.ptr_add(st, args[0], args[1])


@model('std::ptr::const_ptr::<impl *const T>::sub', 'std::ptr::mut_ptr::<impl *mut T>::sub')
def m_sub(it, st, args, callee, dt):
    return it.ptr_add(st, args[0], -args[1])


@model('std::ptr::const_ptr::<impl *const T>::offset_from', 'std::ptr::mut_ptr::<impl *mut T>::offset_from', 'std::ptr::const_ptr::<impl *const T>::offset_from_unsigned')
def m_offset_from(it, st, args, callee, dt):
    a, b = args
    if a.base() == b.base():
        return a.off() - b.off()
    return None


@model('std::ptr::copy', 'std::ptr::copy_nonoverlapping', 'std::intrinsics::copy', 'std::intrinsics::copy_nonoverlapping',
       'std::intrinsics::volatile_copy_memory')
def m_copy(it, st, args, callee, dt):
    it.mem_copy(st, args[0], args[1], args[2])
    return UNIT


@model('std::ptr::const_ptr::<impl *const T>::copy_to', 'std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping',
       'std::ptr::mut_ptr::<impl *mut T>::copy_to', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping')
def m_copy_to(it, st, args, callee, dt):
    it.mem_copy(st, args[0], args[1], args[2])
    return UNIT


@model('std::ptr::mut_ptr::<impl *mut T>::copy_from', 'std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping')
def m_copy_from(it, st, args, callee, dt):
    it.mem_copy(st, args[1], args[0], args[2])
    return UNIT


@model('std::ptr::write_bytes', 'std::intrinsics::write_bytes', 'std::ptr::mut_ptr::<impl *mut T>::write_bytes')
def m_write_bytes(it, st, args, callee, dt):
    p, v, n = args
    v = st.canon(v)
    r = it.region_at(st, p.base())
    if isinstance(r, Agg):
        r = it.region_of_array(r)
    if not isinstance(r, Region):
        raise I.Unsupported('write_bytes')
    if v == Lin(0):
        it.put_content(st, p.base(), p.off(), zero(n))
    else:
        it.put_content(st, p.base(), p.off(), ((L(n), 'rep', v, Lin(0)),))
    return UNIT


@model('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::intrinsics::read_via_copy')
def m_read(it, st, args, callee, dt):
    return it.read_path(st, args[0])


@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write', 'std::intrinsics::write_via_move')
def m_write(it, st, args, callee, dt):
    it.write_path(st, args[0], args[1])
    return UNIT


@model('std::mem::swap')
def m_swap(it, st, args, callee, dt):
    a = it.read_path(st, args[0])
    b = it.read_path(st, args[1])
    it.write_path(st, args[0], b)
    it.write_path(st, args[1], a)
    return UNIT


@model('std::mem::replace', 'std::ptr::replace')
def m_replace(it, st, args, callee, dt):
    a = it.read_path(st, args[0])
    it.write_path(st, args[0], args[1])
    return a


@model('std::mem::drop', 'std::mem::forget')
def m_drop(it, st, args, callee, dt):
    return UNIT


@model('std::intrinsics::assert_inhabited', 'std::intrinsics::assume', 'std::hint::assert_unchecked', 'std::intrinsics::cold_path', 'std::hint::black_box')
def m_nop(it, st, args, callee, dt):
    if callee['name'] == 'black_box':
        return args[0]
    return UNIT


@model('std::intrinsics::transmute')
def m_transmute(it, st, args, callee, dt):
    return args[0]


@model('std::intrinsics::size_of', 'std::mem::size_of')
def m_size_of(it, st, args, callee, dt):
    return None


def _int_meth(name, f):
    pass


# ------------------------------------------------------------ Range iterators
@model('<I as std::iter::IntoIterator>::into_iter', '<std::ops::Range as std::iter::IntoIterator>::into_iter')
def m_into_iter(it, st, args, callee, dt):
    return args[0]


@model('std::iter::Iterator::rev')
def m_rev(it, st, args, callee, dt):
    return Agg('std::iter::Rev', None, (args[0],))


def range_next(it, st, p, back=False):
    r = it.read_path(st, p)
    if isinstance(r, Agg) and len(r.f) >= 2 and isinstance(r.f[0], Lin) and isinstance(r.f[1], Lin):
        a, b = r.f[0], r.f[1]
        if st.must(f_ge(b - a - 1)):
            if back:
                it.write_path(st, p, Agg(r.tag, r.var, (a, b - 1) + r.f[2:]))
                return some(b - 1)
            it.write_path(st, p, Agg(r.tag, r.var, (a + 1, b) + r.f[2:]))
            return some(a)
        return NONE
    return None


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_range_next(it, st, args, callee, dt):
    return range_next(it, st, args[0])


@model('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def m_range_next_back(it, st, args, callee, dt):
    return range_next(it, st, args[0], True)


@model('std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next')
def m_range_incl(it, st, args, callee, dt):
    p = args[0]
    r = it.read_path(st, p)
    a, b, ex = r.f
    if st.must(f_and(f_not(ex), f_ge(b - a))):
        if st.must(f_ge(b - a - 1)):
            it.write_path(st, p, Agg(r.tag, r.var, (a + 1, b, False)))
        else:
            it.write_path(st, p, Agg(r.tag, r.var, (a, b, True)))
        return some(a)
    return NONE


@model('std::ops::RangeInclusive::new')
def m_range_incl_new(it, st, args, callee, dt):
    return Agg('std::ops::RangeInclusive', None, (args[0], args[1], False))


def iter_next(it, st, p, back=False):
    """next / next_back on a modelled iterator value at p."""
    v = it.read_path(st, p)
    if isinstance(v, Agg):
        if v.tag == 'siter':
            return siter_next(it, st, p, v, back)
        if v.tag == 'viter':
            return viter_next(it, st, p, v, back)
        if v.tag == 'std::iter::Rev':
            return iter_next(it, st, Ptr(p.obj, p.path + (('f', 0),)), not back)
        if v.tag == 'std::ops::Range':
            return range_next(it, st, p, back)
    return None


@model('<std::iter::Rev as std::iter::Iterator>::next')
def m_rev_next(it, st, args, callee, dt):
    return iter_next(it, st, Ptr(args[0].obj, args[0].path + (('f', 0),)), True)


# ------------------------------------------------------------ slices
def slice_len(it, st, p):
    if isinstance(p, Agg) and len(p.f) == 1:
        p = p.f[0]
    if p.meta is not None and isinstance(p.meta, Lin):
        return p.meta
    v = it.read_path(st, p)
    return val_len(it, st, v)


def val_len(it, st, v):
    if isinstance(v, VecV):
        v = it.load_obj(st, v.obj)
    if isinstance(v, (Region, Seq, Smash)):
        return v.n
    if isinstance(v, Agg):
        return Lin(len(v.f))
    raise I.Unsupported('length of %r' % (v,))


@model('core::slice::<impl [T]>::len')
def m_slen(it, st, args, callee, dt):
    return slice_len(it, st, args[0])


@model('core::slice::<impl [T]>::is_empty')
def m_sempty(it, st, args, callee, dt):
    return f_eq(slice_len(it, st, args[0]))


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def m_sptr(it, st, args, callee, dt):
    p = args[0]
    return Ptr(p.obj, p.path if p.path and p.path[-1][0] == 'e' and p.meta is not None else p.path + (('e', Lin(0)),), None)


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter',
       'core::slice::iter::<impl std::iter::IntoIterator for &mut [T]>::into_iter', '<&std::vec::Vec as std::iter::IntoIterator>::into_iter',
       '<&mut std::vec::Vec as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for &[T; N]>::into_iter',
       'std::array::<impl std::iter::IntoIterator for &mut [T; N]>::into_iter', 'core::array::<impl std::iter::IntoIterator for &[T; N]>::into_iter',
       'core::array::<impl std::iter::IntoIterator for &mut [T; N]>::into_iter')
def m_siter(it, st, args, callee, dt):
    p = args[0]
    if p.meta is None or not isinstance(p.meta, Lin):
        v = it.read_path(st, p)
        n = val_len(it, st, v)
        if isinstance(v, VecV):
            p = Ptr(v.obj, (('e', Lin(0)),), n)
        else:
            p = Ptr(p.obj, p.path + (('e', Lin(0)),), n)
    return Agg('siter', None, (Ptr(p.obj, p.path), Lin(0), p.meta))


def siter_next(it, st, p, v, back=False):
    base, i, n = v.f
    if st.must(f_ge(n - i - 1)):
        if back:
            it.write_path(st, p, Agg('siter', None, (base, i, n - 1)))
            return some(base.add(n - 1))
        it.write_path(st, p, Agg('siter', None, (base, i + 1, n)))
        return some(base.add(i))
    return NONE


@model('<std::slice::Iter as std::iter::Iterator>::next', '<std::slice::IterMut as std::iter::Iterator>::next')
def m_siter_next(it, st, args, callee, dt):
    return iter_next(it, st, args[0])


@model('<std::slice::Iter as std::iter::DoubleEndedIterator>::next_back', '<std::slice::IterMut as std::iter::DoubleEndedIterator>::next_back')
def m_siter_next_back(it, st, args, callee, dt):
    return iter_next(it, st, args[0], True)


def sub_slice(it, st, p, r):
    """&p[r] for a range value r; bounds checked."""
    n = slice_len(it, st, p)
    if p.meta is None or not isinstance(p.meta, Lin):
        v = it.read_path(st, p)
        p = Ptr(v.obj, (('e', Lin(0)),), n) if isinstance(v, VecV) else Ptr(p.obj, p.path + (('e', Lin(0)),), n)
    if r.tag == 'std::ops::Range':
        a, b = r.f[0], r.f[1]
    elif r.tag == 'std::ops::RangeFrom':
        a, b = r.f[0], n
    elif r.tag == 'std::ops::RangeTo':
        a, b = Lin(0), r.f[0]
    elif r.tag == 'std::ops::RangeFull':
        a, b = Lin(0), n
    elif r.tag == 'std::ops::RangeInclusive':
        a, b = r.f[0], r.f[1] + 1
    elif r.tag == 'std::ops::RangeToInclusive':
        a, b = Lin(0), r.f[0] + 1
    else:
        raise I.Unsupported('slice range %r' % (r,))
    out = []
    for s in it.require(st, f_and(f_ge(b - a), f_ge(n - b)), 'panic', 'slice range out of bounds'):
        out.append((s, Ptr(p.obj, p.base()[1] + (('e', p.off() + a),), b - a)))
    return out


def index(it, st, p, i):
    if isinstance(i, Agg):
        return sub_slice(it, st, p, i)
    n = slice_len(it, st, p)
    if p.meta is None or not isinstance(p.meta, Lin):
        v = it.read_path(st, p)
        q = Ptr(v.obj, (('e', i),)) if isinstance(v, VecV) else Ptr(p.obj, p.path + (('e', i),))
    else:
        q = Ptr(p.obj, p.path).add(i)
    return [(s, q) for s in it.require(st, f_and(f_ge(i), f_ge(n - i - 1)), 'panic', 'index out of bounds')]


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
       '<std::vec::Vec as std::ops::Index>::index', '<std::vec::Vec as std::ops::IndexMut>::index_mut')
def m_index(it, st, args, callee, dt):
    return index(it, st, args[0], args[1])


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def m_get(it, st, args, callee, dt):
    p, i = args
    if not isinstance(i, Lin):
        return None
    n = slice_len(it, st, p)
    if st.must(f_and(f_ge(i), f_ge(n - i - 1))):
        return [(s, some(q)) for s, q in index(it, st, p, i)]
    return NONE


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def m_getu(it, st, args, callee, dt):
    p, i = args
    if not isinstance(i, Lin):
        return None
    return Ptr(p.obj, p.path).add(i)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def m_first(it, st, args, callee, dt):
    p = args[0]
    n = slice_len(it, st, p)
    if st.must(f_eq(n)):
        return NONE
    i = Lin(0) if callee['name'].startswith('first') else n - 1
    return [(s, some(q)) for s, q in index(it, st, p, i)]


@model('core::slice::<impl [T]>::swap')
def m_sswap(it, st, args, callee, dt):
    p, i, j = args
    out = []
    for s, a in index(it, st, p, i):
        for s2, b in index(it, s, p, j):
            x, y = it.read_path(s2, a), it.read_path(s2, b)
            it.write_path(s2, a, y)
            it.write_path(s2, b, x)
            out.append((s2, UNIT))
    return out


@model('core::slice::<impl [T]>::copy_from_slice')
def m_copy_from_slice(it, st, args, callee, dt):
    d, s = args
    out = []
    for x in it.require(st, f_eq(slice_len(it, st, d) - slice_len(it, st, s)), 'panic', 'copy_from_slice length mismatch'):
        it.mem_copy(x, s, d, slice_len(it, x, d))
        out.append((x, UNIT))
    return out


@model('core::slice::<impl [T]>::fill')
def m_fill(it, st, args, callee, dt):
    p, v = args
    n = slice_len(it, st, p)
    r = it.region_at(st, p.base())
    if isinstance(r, Region) and v == Lin(0):
        it.put_content(st, p.base(), p.off(), zero(n))
        return UNIT
    if isinstance(r, Smash):
        lo, hi = it.range_of(st, v)
        it.write_path(st, Ptr(*p.base()), Smash(r.n, min(lo, r.lo), max(hi, r.hi)))
        return UNIT
    return None


# ------------------------------------------------------------ Vec
def vec_elem_ty(it, dt):
    t = it.types[dt]
    while t['k'] in ('ref', 'ptr'):
        t = it.types[t['to']]
    if t['k'] == 'adt' and t['args']:
        return t['args'][0]
    return None


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def m_vec_new(it, st, args, callee, dt):
    if args:
        it.alloc(st, args[0], 'Vec::with_capacity')
    e = vec_elem_ty(it, dt)
    if e is not None and it.is_u8(e):
        return VecV(it.new_obj(st, Region(0, ())))
    return VecV(it.new_obj(st, Seq(0, ())))


@model('std::vec::from_elem')
def m_from_elem(it, st, args, callee, dt):
    v, n = args
    it.alloc(st, n, 'vec![_; n]')
    e = vec_elem_ty(it, dt)
    if e is not None and it.is_u8(e):
        c = zero(n) if v == Lin(0) else ((L(n), 'rep', v, Lin(0)),)
        return VecV(it.new_obj(st, Region(n, c)))
    n = st.canon(n)
    if n.is_const() and n.c <= 4096 and isinstance(v, (VecV, Agg)):
        return VecV(it.new_obj(st, Seq(n, tuple(it.clone_val(st, v) for _ in range(n.c)))))
    return VecV(it.new_obj(st, Seq(n, None, ('const', v))))


@model('std::vec::Vec::push')
def m_push(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    s = it.load_obj(st, v.obj)
    if isinstance(s, Region):
        st.mem[v.obj] = Region(s.n + 1, norm(s.c + ((I._trit_piece(args[1]) or (Lin(1), 'val', args[1], Lin(0))),)))
    elif isinstance(s, Seq) and s.items is not None:
        st.mem[v.obj] = Seq(s.n + 1, s.items + (args[1],), s.base, s.w)
    elif isinstance(s, Seq):
        st.mem[v.obj] = Seq(s.n + 1, None, s.base, s.w + ((s.n, args[1]),))
    elif isinstance(s, Smash):
        lo, hi = it.range_of(st, args[1])
        st.mem[v.obj] = Smash(s.n + 1, min(lo, s.lo), max(hi, s.hi))
    else:
        raise I.Unsupported('push to %r' % (s,))
    return UNIT


@model('std::vec::Vec::capacity')
def m_capacity(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    n = val_len(it, st, v)
    c = atom('cap', (v.obj, it.load_obj(st, v.obj)), 0, (1 << 63) - 1)
    st.facts.add_ge(c - n)
    return c


@model('std::vec::Vec::pop')
def m_pop(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    s = it.load_obj(st, v.obj)
    if st.must(f_eq(s.n)):
        return NONE
    if isinstance(s, Seq):
        if s.items is not None:
            st.mem[v.obj] = Seq(s.n - 1, s.items[:-1], s.base, s.w)
            return some(s.items[-1])
        x = it.seq_get(st, s, s.n - 1)
        st.mem[v.obj] = Seq(s.n - 1, None, s.base, tuple(w for w in s.w if not st.facts.ent_eq(w[0] - s.n + 1)))
        return some(x)
    return None


@model('std::vec::Vec::len')
def m_vlen(it, st, args, callee, dt):
    return val_len(it, st, vec_of(it, st, args[0]))


@model('std::vec::Vec::is_empty')
def m_vempty(it, st, args, callee, dt):
    return f_eq(val_len(it, st, vec_of(it, st, args[0])))


@model('std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr')
def m_vptr(it, st, args, callee, dt):
    return Ptr(vec_of(it, st, args[0]).obj, (('e', Lin(0)),))


@model('<std::vec::Vec as std::ops::Deref>::deref', '<std::vec::Vec as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
       '<std::vec::Vec as std::convert::AsRef>::as_ref', '<std::vec::Vec as std::convert::AsMut>::as_mut')
def m_vderef(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    return Ptr(v.obj, (('e', Lin(0)),), val_len(it, st, v))


@model('std::vec::Vec::clear')
def m_vclear(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    s = it.load_obj(st, v.obj)
    st.mem[v.obj] = Region(0, ()) if isinstance(s, Region) else Seq(0, ())
    return UNIT


@model('std::vec::Vec::truncate')
def m_vtrunc(it, st, args, callee, dt):
    v = vec_of(it, st, args[0])
    s = it.load_obj(st, v.obj)
    if st.ge(args[1] - s.n):
        return UNIT
    if isinstance(s, Region):
        st.mem[v.obj] = Region(args[1], it.read_region(st, s, Lin(0), args[1]))
        return UNIT
    n = st.canon(args[1])
    if s.items is not None and n.is_const():
        st.mem[v.obj] = Seq(n, s.items[:n.c])
        return UNIT
    raise I.Unsupported('truncate')


@model('<std::vec::Vec as std::clone::Clone>::clone', '<std::boxed::Box as std::clone::Clone>::clone')
def m_vclone(it, st, args, callee, dt):
    return it.clone_val(st, vec_of(it, st, args[0]))


@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit')
def m_vreserve(it, st, args, callee, dt):
    if len(args) > 1:
        it.alloc(st, args[1], 'Vec::reserve')
    return UNIT


@model('<std::vec::Vec as std::iter::IntoIterator>::into_iter')
def m_vinto(it, st, args, callee, dt):
    v = args[0]
    return Agg('viter', None, (v, Lin(0), val_len(it, st, v)))


def viter_next(it, st, p, v, back=False):
    vec, i, n = v.f
    if st.must(f_ge(n - i - 1)):
        k = n - 1 if back else i
        x = it.elem(st, it.load_obj(st, vec.obj), k)
        it.write_path(st, p, Agg('viter', None, (vec, i, n - 1) if back else (vec, i + 1, n)))
        return some(x)
    return NONE


@model('<std::vec::IntoIter as std::iter::Iterator>::next')
def m_viter_next(it, st, args, callee, dt):
    return iter_next(it, st, args[0])


@model('std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::ne')
def m_veq(it, st, args, callee, dt):
    a, b = vec_of(it, st, args[0]), vec_of(it, st, args[1])
    x, y = it.load_obj(st, a.obj), it.load_obj(st, b.obj)
    r = eq_seq(it, st, x, y)
    return f_not(r) if callee['name'] == 'ne' else r


def eq_seq(it, st, x, y):
    if isinstance(x, Region) and isinstance(y, Region):
        if not st.must(f_eq(x.n - y.n)):
            return False
        return eq_content(it, st, x.c, y.c)
    if x == y:
        return True
    return ('op', ('eqseq', x, y))


def eq_content(it, st, a, b):
    """Formula: two contents of equal length are equal."""
    if st.same_content(a, b):
        return True
    a, b = st.norm_content(st.canon_term(a)), st.norm_content(st.canon_term(b))
    if not a:
        return True
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return ('op', ('eqc', x, y))


# ------------------------------------------------------------ Box / Rc / String / str / char
@model('std::boxed::Box::new', 'std::rc::Rc::new', 'std::sync::Arc::new')
def m_box(it, st, args, callee, dt):
    return Ptr(it.new_obj(st, args[0]))


@model('<std::rc::Rc as std::borrow::Borrow>::borrow', '<std::rc::Rc as std::ops::Deref>::deref', '<std::boxed::Box as std::ops::Deref>::deref',
       '<std::boxed::Box as std::ops::DerefMut>::deref_mut', '<std::rc::Rc as std::convert::AsRef>::as_ref')
def m_rcderef(it, st, args, callee, dt):
    v = deref(it, st, args[0])
    return v if isinstance(v, Ptr) else args[0]


@model('<std::rc::Rc as std::clone::Clone>::clone')
def m_rcclone(it, st, args, callee, dt):
    return deref(it, st, args[0])


@model('std::string::String::with_capacity', 'std::string::String::new')
def m_str_new(it, st, args, callee, dt):
    if args:
        it.alloc(st, args[0], 'String::with_capacity')
    return StrV('')


@model('std::string::String::push')
def m_str_push(it, st, args, callee, dt):
    v = deref(it, st, args[0])
    it.write_path(st, args[0], StrV(None))
    return UNIT


def pattern(it, st, path, dpath, args, callee, dt):
    """Models selected by the shape of the path."""
    name = callee.get('name')
    if 'std::iter::' in path or 'std::iter::' in dpath:
        r = iters.call(it, st, name, args, dt)
        if r is not None:
            return r
    if path.startswith('std::clone::impls::<impl std::clone::Clone for '):
        return deref(it, st, args[0])
    if path == 'std::clone::Clone::clone' and callee.get('kind') == 'shim':
        return it.clone_val(st, deref(it, st, args[0]))
    if path == '<std::marker::PhantomData as std::clone::Clone>::clone':
        return UNIT
    if path.startswith('std::cmp::impls::<impl std::cmp::PartialEq for ') or path.startswith('std::cmp::impls::<impl std::cmp::PartialOrd for '):
        a, b = deref(it, st, args[0]), deref(it, st, args[1])
        op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}.get(name)
        if op and not isinstance(a, (Ptr, Agg)) and not isinstance(b, (Ptr, Agg)):
            return it.compare(st, op, a, b)
    if path.startswith('core::num::<impl ') or path.startswith('std::num::<impl '):
        return num_method(it, st, path, name, args, callee, dt)
    if path.startswith('std::intrinsics::'):
        return intrinsic(it, st, name, args, callee, dt)
    if '::pointer_is_aligned' in path or 'precondition_check' in path or 'check_language_ub' in path or 'is_nonoverlapping' in path:
        return UNIT if it.types[dt]['k'] == 'tuple' else True
    return None


def num_method(it, st, path, name, args, callee, dt):
    ty = path[path.index('<impl ') + 6:path.index('>')]
    signed = ty[0] == 'i'
    bits = 64 if ty.endswith('size') else int(ty[1:]) if ty[1:].isdigit() else None
    if bits is None:
        return None
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(name.split('_')[-1])
    if op and len(args) == 2 and all(isinstance(a, Lin) for a in args):
        r = it.arith(st, op, args[0], args[1])
        fits = f_and(f_ge(r - lo), f_ge(Lin(hi) - r))
        if name.startswith('wrapping_'):
            return it.wrap(st, r, dt)
        if name.startswith('unchecked_'):
            return r
        if name.startswith('checked_'):
            return some(r) if st.must(fits) else NONE
        if name.startswith('overflowing_'):
            return None
        if name.startswith('saturating_'):
            if st.must(fits):
                return r
            return Lin(hi) if st.must(f_ge(r - hi)) else Lin(lo)
    if name == 'rem_euclid' and args[1].is_const() and args[1].c > 0:
        x, c = args[0], args[1].c
        return x - it.floordiv(st, x, c) * c
    if name == 'pow' and args[1].is_const() and args[1].c <= 64:
        r = Lin(1)
        for _ in range(args[1].c):
            r = st.canon(r) * st.canon(args[0])
        return [(s, r) for s in it.require(st, f_and(f_ge(r - lo), f_ge(Lin(hi) - r)), 'panic', 'pow overflow')]
    if name in ('wrapping_neg',):
        return it.wrap(st, -args[0], dt)
    if name == 'abs':
        return args[0] if st.ge(args[0]) else -args[0]
    if name == 'trailing_zeros':
        return atom('ctz', (args[0],), 0, bits)
    return None


def intrinsic(it, st, name, args, callee, dt):
    if name in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[name[10:]]
        return it.arith(st, op, args[0], args[1])
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[name[9:]]
        return it.wrap(st, it.arith(st, op, args[0], args[1]), dt)
    if name in ('likely', 'unlikely'):
        return args[0]
    if name == 'ub_checks':
        return False
    if name in ('needs_drop',):
        return True
    if name == 'three_way_compare':
        return it.binop(st, 'Cmp', args[0], args[1], dt)
    return None


# ------------------------------------------------------------------ cells: their content, in place
@model('std::cell::Cell::new', 'std::cell::RefCell::new', 'std::cell::UnsafeCell::new')
def m_cell_new(it, st, args, callee, destty):
    return Agg('cell', None, [args[0]])


def inside(p):
    return Ptr(p.obj, p.path + (('f', 0),)) if isinstance(p, Ptr) else None


@model('std::cell::Cell::get')
def m_cell_get(it, st, args, callee, destty):
    p = inside(args[0])
    return None if p is None else it.read_path(st, p)


@model('std::cell::Cell::set')
def m_cell_set(it, st, args, callee, destty):
    p = inside(args[0])
    if p is None:
        return None
    it.write_path(st, p, args[1])
    return UNIT


@model('std::cell::Cell::replace', 'std::cell::RefCell::replace')
def m_cell_replace(it, st, args, callee, destty):
    p = inside(args[0])
    if p is None:
        return None
    v = it.read_path(st, p)
    it.write_path(st, p, args[1])
    return v


@model('std::cell::Cell::take')
def m_cell_take(it, st, args, callee, destty):
    return None


@model('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::as_ptr', 'std::cell::Cell::as_ptr')
def m_cell_borrow(it, st, args, callee, destty):
    return inside(args[0])


@model('<std::cell::RefMut as std::ops::Deref>::deref', '<std::cell::RefMut as std::ops::DerefMut>::deref_mut', '<std::cell::Ref as std::ops::Deref>::deref')
def m_cell_deref(it, st, args, callee, destty):
    return it.read_path(st, args[0])
