"""Models of the library functions the parser calls (no MIR body is available for them, or a
native model is cheaper).  A model returns a list of (state, value), or None to fall through to
the ordinary treatment (inlining the body, or an unknown call)."""
from lin import Lin, atom, const, var, mk, INF
from values import *

RC = ('alloc::rcs::rc::Rc', 'alloc::rc::Rc', 'alloc::rcs::sync::Arc', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc')
CELL = ('core::cell::RefCell', 'std::sync::poison::mutex::Mutex', 'std::sync::mutex::Mutex', 'std::sync::Mutex', 'std::sync::poison::rwlock::RwLock', 'std::sync::rwlock::RwLock', 'std::sync::RwLock')
BOX = ('alloc::boxed::Box',)
VEC = 'alloc::vec::Vec'
COW = 'alloc::borrow::Cow'
STRING = 'alloc::string::String'
RANGE = 'core::ops::range::Range'
PANICKING = frozenset((
    'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
    'std::panicking::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt',
    'core::panicking::assert_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
    'core::panicking::panic_explicit', 'core::panicking::panic_bounds_check', 'core::panicking::panic_const',
    'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::cell::panic_already_borrowed',
    'core::cell::panic_already_mutably_borrowed', 'std::process::abort', 'std::process::exit', 'core::intrinsics::abort'))


def is_panic(p):
    return p.startswith('core::panicking::') or p.startswith('std::panicking::') or p.endswith('_fail') or p.endswith('_failed')


class Ctx:
    __slots__ = ('fr', 'span', 'c', 'args', 's', 'dty', 'argtys')

    def __init__(self, fr, span, c, args, s, dty, argtys):
        self.fr, self.span, self.c, self.args, self.s, self.dty, self.argtys = fr, span, c, args, s, dty, argtys


TABLE = {}
CRATE = 'cafebabe::'


def model(*paths):
    def f(fn):
        for p in paths:
            TABLE[p] = fn
        return fn
    return f


_memo = {}


def find(path, rpath):
    k = (path, rpath)
    if k in _memo:
        return _memo[k]
    r = None
    if not rpath.startswith(CRATE):
        r = TABLE.get(rpath)
        if r is None and not path.startswith(CRATE):
            r = TABLE.get(path)
    _memo[k] = r
    return r


def none(cx):
    return adt(cx.dty, 0, ())


def some(cx, v):
    return adt(cx.dty, 1, (v,))


def ret(cx, v):
    return [(cx.s, v)]


def inner(e, cx, i=0):
    return e.strip(cx.s, cx.args[i])


def loc(v):
    return v is not None and isinstance(v, T) and v.tag == 'ref'


def innermost_loc(e, s, v):
    """follow &mut &mut T to the innermost location"""
    while loc(v):
        x = e.get_path(s, v.a[0], v.a[1])
        if loc(x):
            v = x
        else:
            return v
    return v


# ---------------------------------------------------------------- Result / Option plumbing
@model('core::ops::try_trait::Try::branch')
def try_branch(e, cx):
    v = cx.args[0]
    if not (isinstance(v, T) and v.tag in ('adt', 'sym')):
        return None
    ty = v.a[0] if v.tag == 'adt' else v.a[1]
    nm = e.tname(ty)
    if nm not in ('core::result::Result', 'core::option::Option'):
        return None
    if v.tag == 'sym':
        v = e.resolve_variant(cx.s, v)
    cfv = e.tys[cx.dty]['vs']
    okv = 0 if nm.endswith('Result') else 1
    if v.a[1] == okv:
        return ret(cx, adt(cx.dty, 0, (v.a[2][0],)))
    resid = cfv[1][2][0][1]
    return ret(cx, adt(cx.dty, 1, (adt(resid, v.a[1], v.a[2]),)))


@model('core::ops::try_trait::FromResidual::from_residual')
def from_residual(e, cx):
    v = cx.args[0]
    if not (isinstance(v, T) and v.tag == 'adt'):
        return None
    nm, dn = e.tname(v.a[0]), e.tname(cx.dty)
    if nm == 'core::option::Option' and dn == nm:
        return ret(cx, none(cx))
    if nm == 'core::result::Result' and dn == nm and v.a[1] == 1:
        if e.tys[cx.dty]['vs'][1][2][0][1] == e.tys[v.a[0]]['vs'][1][2][0][1]:
            return ret(cx, adt(cx.dty, 1, v.a[2]))
    return None


@model('core::hint::must_use', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::hint::black_box')
def ident(e, cx):
    v = cx.args[0]
    if cx.c['path'] == 'core::convert::AsRef::as_ref':
        return as_slice(e, cx)
    return ret(cx, v)


def as_slice(e, cx):
    v = inner(e, cx)
    if isinstance(v, T) and v.tag == 'list':
        return ret(cx, mkT('sl', v, const(0), e.list_len(v)))
    if isinstance(v, T) and v.tag in ('sl', 'str'):
        return ret(cx, v)
    if isinstance(v, T) and v.tag == 'arr':
        return ret(cx, e.arr_slice(v, cx.dty))
    if isinstance(v, T) and v.tag in ('adt', 'sym') and e.stringish_val(v):
        return ret(cx, mkT('str', e.strterm(cx.s, v)))
    if isinstance(v, T) and v.tag == 'sym':
        return ret(cx, e.symval(mkT('sldr', v.a[0]), cx.dty))
    return None


# ---------------------------------------------------------------- smart pointers and cells
@model('alloc::rcs::rc::{impl}::new', 'alloc::rc::{impl}::new', 'alloc::rcs::arc::{impl}::new', 'alloc::sync::{impl}::new', 'alloc::rcs::sync::{impl}::new',
       'alloc::boxed::{impl}::new', 'core::cell::{impl}::new', 'std::sync::poison::mutex::{impl}::new', 'std::sync::mutex::{impl}::new', 'std::sync::poison::rwlock::{impl}::new')
def ptr_new(e, cx):
    nm = e.tname(cx.dty)
    if nm in RC or nm in CELL or nm in BOX:
        return ret(cx, adt(cx.dty, 0, (cx.args[0],)))
    return None


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(e, cx):
    s = cx.s
    a = cx.args[0]
    v = e.strip(s, a)
    if not isinstance(v, T):
        return None
    if v.tag == 'guard':
        return ret(cx, v.a[0])
    mut = cx.c['path'].endswith('deref_mut')
    if v.tag == 'list':
        if mut:
            l = innermost_loc(e, s, a)
            if loc(l):
                return ret(cx, mkT('slm', l.a[0], l.a[1]))
        return ret(cx, mkT('sl', v, const(0), e.list_len(v)))
    if v.tag == 'adt':
        nm = e.tname(v.a[0])
        if nm in RC or nm in BOX:
            l = innermost_loc(e, s, a)
            if mut and loc(l):
                return ret(cx, mkT('ref', l.a[0], l.a[1] + (('f', 0, 0, None),)))
            x = v.a[2][0]
            if isinstance(x, T) and x.tag in ('str', 'sl'):
                return ret(cx, x)
            return ret(cx, rv(x))
        if nm == COW:
            if e.stringish_adt(e.tys[v.a[0]]):
                return ret(cx, mkT('str', e.strterm(s, v)))
            return as_slice_cow(e, cx, v)
    if v.tag == 'sym':
        nm = e.tname(v.a[1])
        t = e.tys[v.a[1]]
        if nm in RC or nm in BOX:
            it = t['targs'][0]
            x = e.symval(mkT('dr', v.a[0]), it)
            if isinstance(x, T) and x.tag in ('str', 'sl'):
                return ret(cx, x)
            return ret(cx, rv(x))
        if e.stringish_adt(t):
            return ret(cx, mkT('str', v.a[0]))
    if v.tag == 'str':
        return ret(cx, v)
    if v.tag == 'strv':
        return ret(cx, mkT('str', v.a[0]))
    if v.tag == 'clo':
        return None
    return None


def as_slice_cow(e, cx, v):
    return None


@model('core::cell::{impl}::borrow', 'core::cell::{impl}::borrow_mut', 'core::cell::{impl}::try_borrow', 'core::cell::{impl}::try_borrow_mut',
       'std::sync::poison::mutex::{impl}::lock', 'std::sync::mutex::{impl}::lock', 'std::sync::poison::mutex::{impl}::try_lock',
       'std::sync::poison::rwlock::{impl}::read', 'std::sync::poison::rwlock::{impl}::write', 'std::sync::poison::rwlock::{impl}::try_read', 'std::sync::poison::rwlock::{impl}::try_write')
def cell_borrow(e, cx):
    s = cx.s
    a = cx.args[0]
    name = cx.c['path'].rsplit('::', 1)[1]
    mut = name not in ('borrow', 'read', 'try_read')
    root = path = None
    ident = None
    l = innermost_loc(e, s, a)
    v = e.strip(s, a)
    if isinstance(v, T) and v.tag == 'sym' and e.tname(v.a[1]) in CELL:
        root, path = ('C', v.a[0], v.a[1]), ()
        e.touch(s, v.a[0])
        ident = v.a[0]
    elif isinstance(v, T) and v.tag == 'adt' and e.tname(v.a[0]) in CELL:
        if loc(l):
            root, path = l.a[0], l.a[1] + (('f', 0, 0, None),)
            ident = mkT('cellat', str(root), str(path))
        else:
            e.heap += 1
            root, path = ('H', e.heap), ()
            s.mem[root] = v.a[2][0]
            ident = mkT('cellval', v)
            if mut and name not in ('lock', 'write'):
                e.notes.append(('mutable borrow of a cell held by value', cx.fr.fn.path))
    else:
        return None
    cls = cellclass(ident)
    lock = name in ('lock', 'try_lock', 'read', 'write', 'try_read', 'try_write')
    bad = []
    for g in s.guards:
        if lock or mut or g[1]:
            if not distinct(e, s, g[2], ident):
                bad.append(g)
    e.obl.append(((cx.fr.fn.id, tuple(cx.span or ()), 'borrow' if not lock else 'relock'), not bad, e.chain() if bad else None,
                  f'{name} of {ident} while {bad} is held' if bad else None))
    if lock:
        e.locks.append((tuple(cellclass(g[2]) for g in s.guards), cls, e.chain()))
    e.gid += 1
    s.guards = s.guards + ((e.gid, mut, ident),)
    g = mkT('guard', mkT('ref', root, path), e.gid)
    if name in ('borrow', 'borrow_mut'):
        return ret(cx, g)
    s2 = None
    if name.startswith('try'):
        s2 = s.copy()
        s2.guards = s2.guards[:-1]
    vs = e.tys[cx.dty]['vs']
    out = [(s, adt(cx.dty, 0, (g,)))]
    if s2 is not None:
        out.append((s2, adt(cx.dty, 1, (TOP,))))
    return out


def cellclass(t):
    if isinstance(t, T) and t.tag == 'pj':
        return (t.a[1], t.a[2])
    return ('?',)


def distinct(e, s, a, b):
    """provably different cells"""
    if a is b:
        return False
    if a.tag == 'pj' and b.tag == 'pj':
        if (a.a[1], a.a[2]) != (b.a[1], b.a[2]):
            return True
        x, y = a.a[0], b.a[0]
        while x.tag == 'dr' and y.tag == 'dr':
            x, y = x.a[0], y.a[0]
        if x.tag == 'el' and y.tag == 'el' and x.a[0] is y.a[0]:
            return e.decide(s, e_ne(x.a[1] - y.a[1])) is True
    return False


def e_ne(l):
    if l.isconst():
        return l.c != 0
    return mkT('cmp', 'ne', l)


# ---------------------------------------------------------------- Clone
@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::clone::{impl}::clone')
def clone(e, cx):
    s = cx.s
    v = e.strip(s, cx.args[0])
    if isinstance(v, (Lin, bool)):
        return ret(cx, v)
    if not isinstance(v, T):
        return None
    r = cx.c.get('rpath') or cx.c['path']
    if v.tag == 'list' or r.startswith('alloc::vec') or r.startswith('alloc::slice'):
        if v.tag == 'sl':
            if v.a[1].isconst() and v.a[1].c == 0 and v.a[0].tag == 'list' and v.a[2] is e.list_len(v.a[0]):
                return ret(cx, v.a[0])
            e.copies.append(('slice', v, e.chain()))
            return ret(cx, mkT('list', (mkT('copyseg', v),), None))
        return ret(cx, v)
    if v.tag == 'str':
        e.copies.append(('str', v.a[0], e.chain()))
        return ret(cx, e.owned_str(v.a[0], cx.dty))
    if v.tag in ('adt', 'sym'):
        nm = e.tname(v.a[0] if v.tag == 'adt' else v.a[1])
        if nm == STRING:
            e.copies.append(('string', e.strterm(s, v), e.chain()))
        return ret(cx, v)
    if v.tag in ('tup', 'cmp', 'ptm', 'npt', 'arr', 'fl', 'fbits', 'siter', 'chars'):
        return ret(cx, v)
    return None


# ---------------------------------------------------------------- conversions
@model('core::convert::From::from', 'core::convert::Into::into')
def conv_from(e, cx):
    v = cx.args[0]
    d = e.tys[cx.dty]
    if isinstance(v, Lin) and d['k'] in ('int', 'uint', 'char'):
        return ret(cx, v)
    if isinstance(v, (bool,)) and d['k'] in ('int', 'uint'):
        return ret(cx, const(int(v)))
    if cx.argtys and cx.argtys[0] == cx.dty:
        return ret(cx, v)
    if isinstance(v, T) and v.tag == 'str' and d['k'] == 'adt':
        if d['name'] == COW:
            return ret(cx, adt(cx.dty, 0, (v,)))
        if d['name'] == STRING:
            e.copies.append(('str', v.a[0], e.chain()))
            return ret(cx, e.owned_str(v.a[0], cx.dty))
    if isinstance(v, T) and d['k'] == 'adt' and d['name'] == COW and cx.argtys and cx.argtys[0] is not None and e.tname(cx.argtys[0]) == STRING:
        return ret(cx, adt(cx.dty, 1, (v,)))
    return None


@model('alloc::borrow::{impl}::into_owned', 'alloc::borrow::{impl}::to_mut', 'alloc::string::{impl}::into_string')
def cow_into_owned(e, cx):
    t = e.strterm(cx.s, cx.args[0])
    e.copies.append(('into_owned', t, e.chain()))
    return ret(cx, e.owned_str(t, cx.dty)) if e.tys[cx.dty]['k'] == 'adt' else None


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def try_from(e, cx):
    v = cx.args[0]
    d = e.tys[cx.dty]
    if d['k'] != 'adt' or d['name'] != 'core::result::Result':
        return None
    okty = d['vs'][0][2][0][1]
    if isinstance(v, Lin) and e.isint(okty):
        lo, hi = e.bounds(okty)
        for p in (mkcmp_('ge', v - lo), mkcmp_('ge', -v + hi)):
            if not e.truth(cx.s, p):
                return ret(cx, adt(cx.dty, 1, (TOP,)))
        return ret(cx, adt(cx.dty, 0, (v,)))
    t = e.tys[okty]
    if t['k'] == 'array' or (t['k'] == 'ref' and e.tys[t['e']]['k'] == 'array'):
        x = e.strip(cx.s, v)
        n = t['n'] if t['k'] == 'array' else e.tys[t['e']]['n']
        if isinstance(x, T) and x.tag == 'sl' and n <= 64:
            if not e.truth(cx.s, mkcmp_('eq', x.a[2] - n)):
                return ret(cx, adt(cx.dty, 1, (TOP,)))
            arr = mkT('arr', tuple(e.index(cx.s, x, const(i)) for i in range(n)))
            return ret(cx, adt(cx.dty, 0, (arr if t['k'] == 'array' else rv(arr),)))
    return None


def mkcmp_(rel, lin):
    import interp
    return interp.mkcmp(rel, lin)


# ---------------------------------------------------------------- integers
def intmod(*names):
    def f(fn):
        for n in names:
            TABLE['core::num::{impl}::' + n] = fn
        return fn
    return f


def _two(cx):
    return cx.args[0], cx.args[1]


@intmod('checked_add', 'checked_sub', 'checked_mul')
def checked(e, cx):
    a, b = _two(cx)
    ty = e.tys[cx.dty]['vs'][1][2][0][1]
    op = cx.c['path'].rsplit('_', 1)[1].capitalize()
    v = e.binop(cx.s, op, a, b, ty, ty)
    lo, hi = e.bounds(ty)
    for p in (mkcmp_('ge', v - lo), mkcmp_('ge', -v + hi)):
        if not e.truth(cx.s, p):
            return ret(cx, none(cx))
    return ret(cx, some(cx, v))


@intmod('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'unchecked_add', 'unchecked_sub')
def wrapping(e, cx):
    op = cx.c['path'].rsplit('_', 1)[1].capitalize()
    if op == 'Neg':
        v = -cx.args[0]
    else:
        v = e.binop(cx.s, op, cx.args[0], cx.args[1], cx.dty, cx.dty)
    return ret(cx, e.wrap(cx.s, v, cx.dty))


@intmod('saturating_add', 'saturating_sub', 'saturating_mul')
def saturating(e, cx):
    op = cx.c['path'].rsplit('_', 1)[1].capitalize()
    v = e.binop(cx.s, op, cx.args[0], cx.args[1], cx.dty, cx.dty)
    lo, hi = e.bounds(cx.dty)
    if not e.truth(cx.s, mkcmp_('ge', v - lo)):
        return ret(cx, const(lo))
    if not e.truth(cx.s, mkcmp_('ge', -v + hi)):
        return ret(cx, const(hi))
    return ret(cx, v)


@intmod('overflowing_add', 'overflowing_sub', 'overflowing_mul')
def overflowing(e, cx):
    op = cx.c['path'].rsplit('_', 1)[1].capitalize()
    ty = e.tys[cx.dty]['fs'][0]
    v = e.binop(cx.s, op, cx.args[0], cx.args[1], ty, ty)
    w = e.wrap(cx.s, v, ty)
    return ret(cx, tup(w, False if w is v else mkT('ptm', mkT('ovf', v, ty))))


@intmod('from_be_bytes', 'from_le_bytes')
def from_bytes(e, cx):
    v = e.strip(cx.s, cx.args[0])
    if not (isinstance(v, T) and v.tag == 'arr'):
        return None
    bs = list(v.a[0])
    if cx.c['path'].endswith('from_le_bytes'):
        bs.reverse()
    r = const(0)
    for b in bs:
        r = r.scale(256) + b
    return ret(cx, e.wrap(cx.s, r, cx.dty))


@intmod('to_be_bytes', 'to_le_bytes')
def to_bytes(e, cx):
    v = cx.args[0]
    n = e.tys[cx.dty].get('n')
    if not isinstance(v, Lin) or not isinstance(n, int) or e.st_lo(cx.s, v) < 0:
        return None
    want = {256 ** i for i in range(n)}
    if v.c == 0 and {k for _, k in v.t} == want and len(v.t) == n and all(cx.s.st.interval(var(a))[0] >= 0 and cx.s.st.interval(var(a))[1] <= 255
                                                                         for a, _ in v.t):
        by = {k: var(a) for a, k in v.t}
        bs = [by[256 ** i] for i in range(n)]
    else:
        bs = [e.mod(cx.s, e.div(cx.s, v, 256 ** i) if i else v, 256) for i in range(n)]
    if cx.c['path'].endswith('to_be_bytes'):
        bs.reverse()
    return ret(cx, mkT('arr', tuple(bs)))


def seq_eq(e, s, a, b, prefix=False):
    """whether two sequences of integers are equal (or the second is a prefix of the first), element by element"""
    a, b = as_seq(e, s, a), as_seq(e, s, b)
    if a is None or b is None:
        return None
    n = b.a[2]
    if not n.isconst() and not prefix:
        n = a.a[2]
    if not n.isconst() or n.c > 16:
        return None
    xs = [(e.index(s, a, const(i)), e.index(s, b, const(i))) for i in range(n.c)]
    if not all(isinstance(x, Lin) and isinstance(y, Lin) for x, y in xs):
        return None
    d = a.a[2] - b.a[2]
    if not e.truth(s, mkcmp_('ge', d) if prefix else mkcmp_('eq', d)):
        return False
    return all(e.truth(s, mkcmp_('eq', x - y)) for x, y in xs)


@model('core::intrinsics::raw_eq', 'core::slice::cmp::{impl}::eq', 'core::slice::cmp::{impl}::ne', 'core::slice::{impl}::starts_with',
       'core::array::equality::{impl}::eq', 'core::array::equality::{impl}::ne')
def seqeq(e, cx):
    r = seq_eq(e, cx.s, cx.args[0], cx.args[1], cx.c['path'].endswith('starts_with'))
    if r is None:
        return None
    return ret(cx, r != cx.c['path'].endswith('::ne'))


@model('core::slice::{impl}::contains', 'alloc::vec::{impl}::contains')
def slice_contains(e, cx):
    q = as_seq(e, cx.s, cx.args[0])
    x = e.strip(cx.s, cx.args[1])
    if q is None or not isinstance(x, Lin) or not q.a[2].isconst() or q.a[2].c > 32:
        return None
    xs = [e.index(cx.s, q, const(i)) for i in range(q.a[2].c)]
    if not all(isinstance(y, Lin) for y in xs):
        return None
    return ret(cx, any(e.truth(cx.s, mkcmp_('eq', x - y)) for y in xs))


@intmod('is_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros', 'pow', 'abs', 'rem_euclid', 'div_ceil', 'next_multiple_of', 'abs_diff')
def int_misc(e, cx):
    a = cx.args[0]
    n = cx.c['path'].rsplit('::', 1)[1]
    if n in ('next_multiple_of', 'div_ceil', 'rem_euclid') and isinstance(a, Lin) and isinstance(cx.args[1], Lin) and cx.args[1].isconst() and cx.args[1].c > 0:
        m = cx.args[1].c
        if e.st_lo(cx.s, a) >= 0:
            if n == 'rem_euclid':
                return ret(cx, e.mod(cx.s, a, m))
            if n == 'next_multiple_of':
                r = e.mod(cx.s, -a, m)
                return ret(cx, a + r)
            return ret(cx, e.div(cx.s, a + (m - 1), m))
    if isinstance(a, Lin) and a.isconst():
        if n == 'is_power_of_two':
            return ret(cx, a.c > 0 and a.c & (a.c - 1) == 0)
        if n == 'count_ones' and a.c >= 0:
            return ret(cx, const(bin(a.c).count('1')))
        if n == 'abs':
            return ret(cx, const(abs(a.c)))
        if n == 'pow' and cx.args[1].isconst():
            return ret(cx, const(a.c ** cx.args[1].c))
    return None


@model('core::f32::{impl}::from_bits', 'core::f64::{impl}::from_bits', 'core::num::f32::{impl}::from_bits', 'core::num::f64::{impl}::from_bits',
       'core::num::imp::f32::{impl}::from_bits')
def from_bits(e, cx):
    return ret(cx, mkT('fbits', e.bitsof(cx.dty), cx.args[0]))


@model('core::f32::{impl}::from_be_bytes', 'core::f64::{impl}::from_be_bytes')
def f_from_be(e, cx):
    v = e.strip(cx.s, cx.args[0])
    if not (isinstance(v, T) and v.tag == 'arr'):
        return None
    r = const(0)
    for b in v.a[0]:
        r = r.scale(256) + b
    return ret(cx, mkT('fbits', e.bitsof(cx.dty), r))


@model('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max', 'core::cmp::impls::{impl}::min',
       'core::cmp::impls::{impl}::max')
def minmax(e, cx):
    a, b = _two(cx)
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return None
    mn = cx.c['path'].endswith('min')
    r = e.truth(cx.s, mkcmp_('ge', a - b))
    return ret(cx, (b if mn else a) if r else (a if mn else b))


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp', 'alloc::borrow::{impl}::cmp', 'core::str::traits::{impl}::cmp', 'alloc::string::{impl}::cmp')
def ordcmp(e, cx):
    a, b = e.strip(cx.s, cx.args[0]), e.strip(cx.s, cx.args[1])
    if isinstance(a, Lin) and isinstance(b, Lin) and e.tname(cx.dty) == 'core::cmp::Ordering':
        return ret(cx, e.cmp3(cx.s, a, b))
    if isinstance(a, T) and isinstance(b, T) and e.tname(cx.dty) == 'core::cmp::Ordering' and e.stringish_val(a) and e.stringish_val(b):
        x, y = e.strterm(cx.s, a), e.strterm(cx.s, b)
        if e.truth(cx.s, e.str_eq(cx, x, y)):
            return ret(cx, adt(cx.dty, 1, ()))
        t = mkT('strcmp', x, y)
        if not e.assume_var(cx.s, t, frozenset((0, 2))):
            from interp import Infeasible
            raise Infeasible()
        return ret(cx, mkT('sym', t, cx.dty))
    return None


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def ordrel(e, cx):
    a, b = e.strip(cx.s, cx.args[0]), e.strip(cx.s, cx.args[1])
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[cx.c['path'].rsplit('::', 1)[1]]
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ret(cx, e.compare(cx.s, op, a, b, None))
    return None


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::str::traits::{impl}::eq', 'alloc::borrow::{impl}::eq', 'alloc::string::{impl}::eq')
def eq(e, cx):
    s = cx.s
    a, b = e.strip(s, cx.args[0]), e.strip(s, cx.args[1])
    isne = cx.c['path'].endswith('::ne')
    r = None
    if isinstance(a, Lin) and isinstance(b, Lin):
        r = mkcmp_('eq', a - b)
    elif isinstance(a, bool) or (isinstance(a, T) and a.tag in ('ptm', 'npt', 'cmp')):
        r = e.compare(s, 'Eq', a, b, None)
    elif isinstance(a, T) and isinstance(b, T) and (e.stringish_val(a) or e.stringish_val(b)):
        r = e.str_eq(cx, e.strterm(s, a), e.strterm(s, b))
    if r is None:
        return None
    if isne:
        from interp import neg
        r = neg(r)
    return ret(cx, r)


def whole_eq(x, y):
    """the predicate that two lists or slices as a whole are equal"""
    if x is y:
        return True
    x, y = sorted((x, y), key=lambda z: z.n)
    return mkT('ptm', mkT('listeq', x, y))


@model('alloc::vec::partial_eq::{impl}::eq', 'alloc::vec::partial_eq::{impl}::ne')
def vec_eq(e, cx):
    a, b = e.strip(cx.s, cx.args[0]), e.strip(cx.s, cx.args[1])
    r = seq_eq(e, cx.s, cx.args[0], cx.args[1])
    if r is None and isinstance(a, T) and isinstance(b, T) and a.tag == b.tag == 'list':
        r = whole_eq(a, b)
    if r is None:
        return None
    if cx.c['path'].endswith('::ne'):
        from interp import neg
        r = neg(r)
    return ret(cx, r)


# ---------------------------------------------------------------- Vec and slices
def vecmod(*names):
    def f(fn):
        for n in names:
            for m in ('alloc::vec::{impl}::', 'alloc::vec::Vec::'):
                TABLE[m + n] = fn
        return fn
    return f


@vecmod('new', 'with_capacity')
def vec_new(e, cx):
    if cx.args:
        e.allocs.append((cx.args[0], cx.s.copy() if not (isinstance(cx.args[0], Lin) and cx.args[0].isconst()) else None, e.chain(), cx.fr.fn, cx.span))
    return ret(cx, mkT('list', (), e.tys[cx.dty]['targs'][0]))


@model('core::default::Default::default')
def default(e, cx):
    t = e.tys[cx.dty]
    if t['k'] == 'adt' and t['name'] == VEC:
        return ret(cx, mkT('list', (), t['targs'][0]))
    if t['k'] in ('int', 'uint'):
        return ret(cx, const(0))
    if t['k'] == 'bool':
        return ret(cx, False)
    return None


def vecloc(e, cx):
    l = innermost_loc(e, cx.s, cx.args[0])
    if not loc(l):
        return None, None
    v = e.get_path(cx.s, l.a[0], l.a[1])
    if not (isinstance(v, T) and v.tag == 'list'):
        return None, None
    return l, v


@vecmod('push')
def vec_push(e, cx):
    l, v = vecloc(e, cx)
    if v is None:
        return None
    segs = v.a[0]
    x = cx.args[1]
    if segs and segs[-1].tag == 'items':
        segs = segs[:-1] + (mkT('items', segs[-1].a[0] + (x,)),)
    else:
        segs = segs + (mkT('items', (x,)),)
    e.write_loc(cx.s, l.a[0], l.a[1], mkT('list', segs, v.a[1]))
    return ret(cx, UNIT)


@vecmod('reserve', 'reserve_exact')
def vec_reserve(e, cx):
    e.allocs.append((cx.args[1], cx.s.copy(), e.chain(), cx.fr.fn, cx.span))
    return ret(cx, UNIT)


@model('alloc::vec::from_elem')
def from_elem(e, cx):
    n = cx.args[1]
    e.allocs.append((n, cx.s.copy(), e.chain(), cx.fr.fn, cx.span))
    if isinstance(n, Lin) and n.isconst() and n.c <= 64:
        return ret(cx, mkT('list', (mkT('items', (cx.args[0],) * n.c),) if n.c else (), e.tys[cx.dty]['targs'][0]))
    term = e.fresh('rep')
    v = e.symval(term, cx.dty)
    if isinstance(v, T) and v.tag == 'list':
        m = e.list_len(v)
        cx.s.st.assume('eq', m - n)
    return ret(cx, v)


@vecmod('resize', 'resize_with')
def vec_resize(e, cx):
    e.allocs.append((cx.args[1], cx.s.copy(), e.chain(), cx.fr.fn, cx.span))
    return None


@vecmod('shrink_to_fit')
def vec_nop(e, cx):
    return ret(cx, UNIT)


@vecmod('as_slice', 'into_boxed_slice')
def vec_as_slice(e, cx):
    return as_slice(e, cx)


@vecmod('extend_from_slice')
def vec_extend(e, cx):
    l, v = vecloc(e, cx)
    x = inner(e, cx, 1)
    if v is None or not (isinstance(x, T) and x.tag == 'sl'):
        return None
    e.copies.append(('slice', x, e.chain()))
    e.write_loc(cx.s, l.a[0], l.a[1], mkT('list', v.a[0] + (mkT('copyseg', x),), v.a[1]))
    return ret(cx, UNIT)


@vecmod('len', 'is_empty')
def vec_len(e, cx):
    v = inner(e, cx)
    if not (isinstance(v, T) and v.tag in ('list', 'sl', 'arr')):
        return None
    n = e.seqlen(v)
    return ret(cx, n if cx.c['path'].endswith('len') else mkcmp_('eq', n))


TABLE['core::slice::{impl}::len'] = vec_len
TABLE['core::slice::{impl}::is_empty'] = vec_len
TABLE['core::array::{impl}::as_slice'] = vec_as_slice


def as_seq(e, s, v):
    v = e.strip(s, v)
    if not isinstance(v, T):
        return None
    if v.tag == 'list':
        return mkT('sl', v, const(0), e.list_len(v))
    if v.tag == 'sl':
        return v
    if v.tag == 'arr':
        return mkT('sl', mkT('list', (mkT('items', v.a[0]),), None), const(0), const(len(v.a[0])))
    if v.tag == 'slm':
        return as_seq(e, s, mkT('ref', v.a[0], v.a[1]))
    return None


@model('core::slice::{impl}::iter', 'alloc::vec::{impl}::iter')
def slice_iter(e, cx):
    q = as_seq(e, cx.s, cx.args[0])
    if q is None:
        return None
    return ret(cx, mkT('siter', q, const(0), q.a[2]))


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(e, cx):
    v = cx.args[0]
    ty = cx.argtys[0] if cx.argtys else None
    x = e.strip(cx.s, v)
    if isinstance(x, T) and x.tag in ('list', 'sl', 'arr'):
        dn = e.tname(cx.dty)
        q = as_seq(e, cx.s, v)
        if dn == 'core::slice::iter::Iter':
            return ret(cx, mkT('siter', q, const(0), q.a[2]))
        if dn in ('alloc::vec::into_iter::IntoIter', 'core::array::iter::IntoIter'):
            return ret(cx, mkT('viter', q, const(0), q.a[2]))
        return None
    if ty is not None and ty == cx.dty:
        return ret(cx, v)
    return None


@model('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def iter_next(e, cx):
    s = cx.s
    l = innermost_loc(e, s, cx.args[0])
    if not loc(l):
        return None
    v = e.get_path(s, l.a[0], l.a[1])
    if not isinstance(v, T):
        return None
    back = cx.c['path'].endswith('next_back')
    if v.tag in ('siter', 'viter'):
        q, i, n = v.a
        if not e.truth(s, mkcmp_('ge', n - i - 1)):
            return ret(cx, none(cx))
        j = n - 1 if back else i
        x = e.index(s, q, j)
        e.write_loc(s, l.a[0], l.a[1], mkT(v.tag, q, i, n - 1) if back else mkT(v.tag, q, i + 1, n))
        if v.tag == 'siter':
            x = x if isinstance(x, T) and x.tag in ('xx',) else rv(x)
        return ret(cx, some(cx, x))
    if v.tag == 'adt' and e.tname(v.a[0]) == RANGE:
        a, b = v.a[2]
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return None
        if not e.truth(s, mkcmp_('ge', b - a - 1)):
            return ret(cx, none(cx))
        if back:
            e.write_loc(s, l.a[0], l.a[1], adt(v.a[0], 0, (a, b - 1)))
            return ret(cx, some(cx, b - 1))
        e.write_loc(s, l.a[0], l.a[1], adt(v.a[0], 0, (a + 1, b)))
        return ret(cx, some(cx, a))
    if v.tag == 'chars':
        return e.chars_next(cx, l, v, back)
    if v.tag == 'sspl':
        return e.split_next(cx, l, v)
    return None


def skip_val(e, s, v, k):
    """the iterator v after dropping its first k items (k >= 0), or None"""
    if not isinstance(v, T):
        return None
    if v.tag in ('siter', 'viter'):
        q, i, n = v.a
        if e.truth(s, mkcmp_('ge', n - i - k)):
            return mkT(v.tag, q, i + k, n)
        return mkT(v.tag, q, n, n)
    if v.tag == 'adt':
        nm = e.tname(v.a[0])
        if nm == RANGE and all(isinstance(x, Lin) for x in v.a[2]):
            a, b = v.a[2]
            if e.truth(s, mkcmp_('ge', b - a - k)):
                return adt(v.a[0], 0, (a + k, b))
            return adt(v.a[0], 0, (b, b))
        fs = v.a[2]
        if nm == 'core::iter::adapters::enumerate::Enumerate' and len(fs) == 2 and isinstance(fs[1], Lin):
            # Enumerate counts the items it passes on, also those that are dropped (at most the length of the sequence)
            x = skip_val(e, s, fs[0], k)
            return None if x is None else adt(v.a[0], 0, (x, fs[1] + k))
        if nm in ('core::iter::adapters::copied::Copied', 'core::iter::adapters::cloned::Cloned') and len(fs) == 1:
            x = skip_val(e, s, fs[0], k)
            return None if x is None else adt(v.a[0], 0, (x,))
    return None


def take_val(e, s, v, k):
    if not isinstance(v, T):
        return None
    if v.tag in ('siter', 'viter'):
        q, i, n = v.a
        if e.truth(s, mkcmp_('ge', n - i - k)):
            return mkT(v.tag, q, i, i + k)
        return v
    if v.tag == 'adt':
        nm = e.tname(v.a[0])
        if nm == RANGE and all(isinstance(x, Lin) for x in v.a[2]):
            a, b = v.a[2]
            if e.truth(s, mkcmp_('ge', b - a - k)):
                return adt(v.a[0], 0, (a, a + k))
            return v
        fs = v.a[2]
        if nm in ('core::iter::adapters::enumerate::Enumerate', 'core::iter::adapters::copied::Copied', 'core::iter::adapters::cloned::Cloned',
                  'core::iter::adapters::map::Map'):
            x = take_val(e, s, fs[0], k)
            return None if x is None else adt(v.a[0], 0, (x,) + tuple(fs[1:]))
    return None


@model('core::iter::traits::iterator::Iterator::skip')
def iter_skip(e, cx):
    if not isinstance(cx.args[1], Lin):
        return None
    x = skip_val(e, cx.s, cx.args[0], cx.args[1])
    if x is None:
        return None
    return ret(cx, adt(cx.dty, 0, (x, const(0))))


@model('core::iter::traits::iterator::Iterator::take')
def iter_take(e, cx):
    if not isinstance(cx.args[1], Lin):
        return None
    x = take_val(e, cx.s, cx.args[0], cx.args[1])
    if x is None:
        return None
    return ret(cx, adt(cx.dty, 0, (x, cx.args[1])))


@model('core::iter::traits::iterator::Iterator::nth')
def iter_nth(e, cx):
    s = cx.s
    l = innermost_loc(e, s, cx.args[0])
    if not loc(l) or not isinstance(cx.args[1], Lin):
        return None
    v = e.get_path(s, l.a[0], l.a[1])
    if not (isinstance(v, T) and (v.tag in ('siter', 'viter') or v.tag == 'adt' and e.tname(v.a[0]) == RANGE)):
        return None
    x = skip_val(e, s, v, cx.args[1])
    if x is None:
        return None
    e.write_loc(s, l.a[0], l.a[1], x)
    return iter_next(e, cx)


@model('core::slice::{impl}::copy_from_slice', 'core::slice::{impl}::clone_from_slice')
def copy_from_slice(e, cx):
    s = cx.s
    dst = cx.args[0]
    q = as_seq(e, s, cx.args[1])
    l = innermost_loc(e, s, dst)
    if q is None:
        return None
    if loc(l):
        cur = e.get_path(s, l.a[0], l.a[1])
        root, path = l.a
    elif isinstance(dst, T) and dst.tag == 'slm':
        root, path = dst.a
        cur = e.get_path(s, root, path)
    else:
        return None
    if not (isinstance(cur, T) and cur.tag == 'arr'):
        return None
    n = len(cur.a[0])
    if not index_obl(e, cx, 'copy-length', mkcmp_('eq', q.a[2] - n), f'{q.a[2]} == {n}'):
        return []
    e.write_loc(s, root, path, mkT('arr', tuple(e.index(s, q, const(i)) for i in range(n))))
    return ret(cx, UNIT)


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def iter_len(e, cx):
    v = inner(e, cx)
    if isinstance(v, T) and v.tag in ('siter', 'viter'):
        return ret(cx, v.a[2] - v.a[1])
    return None


def index_obl(e, cx, kind, p, detail):
    """records the obligation; returns False if it certainly fails"""
    r = e.oblige(cx.s, cx.fr, cx.span, kind, p, detail)
    return e.assume(cx.s, p)


def range_of(e, cx, r, n):
    """(lo, hi, list of conditions that must hold) of an index range over a sequence of length n"""
    r = e.strip(cx.s, r)
    if isinstance(r, T) and r.tag in ('adt', 'sym'):
        ty = r.a[0] if r.tag == 'adt' else r.a[1]
        nm = e.tname(ty)
        if r.tag == 'sym':
            r = e.expand(r, 0)
        fs = r.a[2]
        if nm == 'core::ops::range::Range':
            return fs[0], fs[1]
        if nm == 'core::ops::range::RangeFrom':
            return fs[0], n
        if nm == 'core::ops::range::RangeTo':
            return const(0), fs[0]
        if nm == 'core::ops::range::RangeFull':
            return const(0), n
        if nm == 'core::ops::range::RangeInclusive':
            return fs[0], fs[1] + 1
        if nm == 'core::ops::range::RangeToInclusive':
            return const(0), fs[0] + 1
    return None


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(e, cx):
    s = cx.s
    v = e.strip(s, cx.args[0])
    mut = cx.c['path'].endswith('index_mut')
    if not isinstance(v, T):
        return None
    if v.tag in ('str', 'strv') or (v.tag in ('adt', 'sym') and e.stringish_val(v)):
        t = e.strterm(s, v)
        return e.str_slice(cx, t, cx.args[1])
    q = as_seq(e, s, cx.args[0])
    if q is None:
        return None
    i = e.strip(s, cx.args[1])
    n = q.a[2]
    if isinstance(i, Lin):
        if not index_obl(e, cx, 'bounds', mkcmp_('ge', n - i - 1), f'{i} < {n}'):
            return []
        if mut:
            l = innermost_loc(e, s, cx.args[0])
            if loc(l):
                return ret(cx, mkT('ref', l.a[0], l.a[1] + (('i', i),)))
            if v.tag == 'slm':
                return ret(cx, mkT('ref', v.a[0], v.a[1] + (('i', i),)))
            e.notes.append(('index_mut of unknown', cx.fr.fn.path))
        x = e.index(s, q, i)
        return ret(cx, rv(x))
    r = range_of(e, cx, i, n)
    if r is None:
        return None
    lo, hi = r
    if not index_obl(e, cx, 'slice-order', mkcmp_('ge', hi - lo), f'{lo} <= {hi}'):
        return []
    if not index_obl(e, cx, 'slice-end', mkcmp_('ge', n - hi), f'{hi} <= {n}'):
        return []
    return ret(cx, mkT('sl', q.a[0], q.a[1] + lo, hi - lo))


@model('core::slice::{impl}::get', 'alloc::vec::{impl}::get')
def slice_get(e, cx):
    s = cx.s
    q = as_seq(e, s, cx.args[0])
    if q is None:
        return None
    i = e.strip(s, cx.args[1])
    n = q.a[2]
    if isinstance(i, Lin):
        if not e.truth(s, mkcmp_('ge', n - i - 1)):
            return ret(cx, none(cx))
        return ret(cx, some(cx, rv(e.index(s, q, i))))
    r = range_of(e, cx, i, n)
    if r is None:
        return None
    lo, hi = r
    if not e.truth(s, mkcmp_('ge', hi - lo)) or not e.truth(s, mkcmp_('ge', n - hi)):
        return ret(cx, none(cx))
    return ret(cx, some(cx, mkT('sl', q.a[0], q.a[1] + lo, hi - lo)))


@model('core::slice::{impl}::first', 'core::slice::{impl}::last', 'core::slice::{impl}::split_first', 'core::slice::{impl}::split_last')
def slice_first(e, cx):
    s = cx.s
    q = as_seq(e, s, cx.args[0])
    if q is None:
        return None
    n = q.a[2]
    if not e.truth(s, mkcmp_('ge', n - 1)):
        return ret(cx, none(cx))
    nm = cx.c['path'].rsplit('::', 1)[1]
    x = rv(e.index(s, q, const(0) if 'first' in nm else n - 1))
    if nm.startswith('split'):
        rest = mkT('sl', q.a[0], q.a[1] + 1, n - 1) if 'first' in nm else mkT('sl', q.a[0], q.a[1], n - 1)
        x = tup(x, rest)
    return ret(cx, some(cx, x))


@model('core::slice::{impl}::split_at', 'core::slice::{impl}::split_at_checked')
def split_at(e, cx):
    s = cx.s
    q = as_seq(e, s, cx.args[0])
    i = cx.args[1]
    if q is None:
        return None
    p = mkcmp_('ge', q.a[2] - i)
    if cx.c['path'].endswith('checked'):
        if not e.truth(s, p):
            return ret(cx, none(cx))
    elif not index_obl(e, cx, 'slice-end', p, f'{i} <= {q.a[2]}'):
        return []
    r = tup(mkT('sl', q.a[0], q.a[1], i), mkT('sl', q.a[0], q.a[1] + i, q.a[2] - i))
    return ret(cx, some(cx, r) if cx.c['path'].endswith('checked') else r)


@model('core::slice::{impl}::binary_search_by_key', 'core::slice::{impl}::binary_search_by', 'core::slice::{impl}::binary_search',
       'core::slice::{impl}::partition_point')
def binary_search(e, cx):
    """The index found is one whose element compares equal, whatever the order of the elements.  What else the result says holds for
    ordered lists only: it is recorded as 'bsnone' and 'ppart', for the checks that have established the order."""
    s = cx.s
    name = cx.c['path'].rsplit('::', 1)[1]
    q = as_seq(e, s, cx.args[0])
    if q is None:
        return None
    n = q.a[2]
    j = var(atom(('sy', e.fresh('probe')), 0, e.lenmax()))
    i = var(atom(('sy', e.fresh('insertion point')), 0, e.lenmax()))
    sn = s.copy()
    sn.st.assume('ge', n - i)
    s1 = s.copy()
    outs = []
    diffs = set()
    if s1.st.assume('ge', n - 1 - j):
        before = set(s1.st.con)
        x = rv(e.index(s1, q, j))
        if name == 'binary_search':
            outs = [(s1, x)]
        else:
            v = e.strip(s1, cx.args[-1])
            inst = e.tys[v.a[0]].get('inst') if isinstance(v, T) and v.tag == 'clo' else None
            if not isinstance(inst, int):
                return None
            outs = e.call_closure(cx.fr, cx.span, inst, [v, tup(x)], s1, e.p.fns[inst].body.locals[0])
        for o, _ in outs:
            if any(o.mem.get(r) is not w for r, w in s.mem.items()):
                return None
    res = []
    if name in ('binary_search', 'binary_search_by_key'):
        for o, r in outs:
            a, b = e.strip(o, r), e.strip(o, cx.args[1])
            if not (isinstance(a, Lin) and isinstance(b, Lin)):
                return None
            diffs.add(a - b)
            if o.st.assume('eq', a - b):
                res.append((o, adt(cx.dty, 0, (j,))))
    elif name == 'binary_search_by':
        eqs = [o for o, r in outs if isinstance(r, T) and r.tag == 'adt' and r.a[1] == 1]
        if any(not (isinstance(r, T) and r.tag == 'adt') for _, r in outs):
            return None
        for o in eqs:
            res.append((o, adt(cx.dty, 0, (j,))))
            for key, dom in o.st.con.items():
                if key not in before and len(dom) == 1 and dom[0][0] == dom[0][1]:
                    diffs.add(mk(key, -dom[0][0]))
                    diffs.add(-mk(key, -dom[0][0]))
        diffs = {c for c in diffs if all((o.st.ge0(-c - 1), o.st.eq0(c), o.st.ge0(c - 1))[r.a[1]] for o, r in outs)}
    else:
        cs = set()
        for o, r in outs:
            if isinstance(r, T) and r.tag == 'cmp' and r.a[0] == 'ge' and len(outs) == 1:
                cs.add(r.a[1])
        for c in cs:
            sn.pred[mkT('ppart', i, j, c, q.a[1], n)] = True
        return [(sn, i)]
    if len(diffs) >= 1:
        for c in diffs:
            sn.pred[mkT('bsnone', j, c, q.a[1], n)] = True
    res.append((sn, adt(cx.dty, 1, (i,))))
    return res


@model('core::slice::{impl}::to_vec', 'alloc::slice::{impl}::to_vec', 'alloc::slice::{impl}::into_vec')
def to_vec(e, cx):
    q = as_seq(e, cx.s, cx.args[0])
    if q is None:
        return None
    e.copies.append(('slice', q, e.chain()))
    return ret(cx, mkT('list', (mkT('copyseg', q),), None))


@model('core::mem::replace', 'core::mem::take', 'core::mem::swap')
def mem_replace(e, cx):
    l = innermost_loc(e, cx.s, cx.args[0])
    if not loc(l):
        return None
    old = e.get_path(cx.s, l.a[0], l.a[1])
    if cx.c['path'].endswith('replace'):
        e.write_loc(cx.s, l.a[0], l.a[1], cx.args[1])
        return ret(cx, old)
    if cx.c['path'].endswith('take'):
        t = e.tys[cx.dty]
        if t['k'] == 'adt' and t['name'] == VEC:
            nv = mkT('list', (), t['targs'][0])
        elif t['k'] in ('int', 'uint'):
            nv = const(0)
        elif t['k'] == 'bool':
            nv = False
        elif t['k'] == 'adt' and t['name'] == 'core::option::Option':
            nv = adt(cx.dty, 0, ())
        else:
            return None
        e.write_loc(cx.s, l.a[0], l.a[1], nv)
        return ret(cx, old)
    l2 = innermost_loc(e, cx.s, cx.args[1])
    if not loc(l2):
        return None
    b = e.get_path(cx.s, l2.a[0], l2.a[1])
    e.write_loc(cx.s, l.a[0], l.a[1], b)
    e.write_loc(cx.s, l2.a[0], l2.a[1], old)
    return ret(cx, UNIT)


@model('core::option::{impl}::take')
def opt_take(e, cx):
    l = innermost_loc(e, cx.s, cx.args[0])
    if not loc(l):
        return None
    old = e.get_path(cx.s, l.a[0], l.a[1])
    e.write_loc(cx.s, l.a[0], l.a[1], adt(cx.dty, 0, ()))
    return ret(cx, old)


@model('core::mem::drop', 'core::mem::forget')
def mem_drop(e, cx):
    v = cx.args[0]
    if isinstance(v, T):
        acc = set()
        subterms(v, acc)
        gs = {x.a[1] for x in acc if x.tag == 'guard'}
        cx.s.guards = tuple(g for g in cx.s.guards if g[0] not in gs)
    return ret(cx, UNIT)


# ---------------------------------------------------------------- synthetic loops over iterators
@model('core::iter::traits::iterator::Iterator::all', 'core::iter::traits::iterator::Iterator::any',
       'core::iter::traits::iterator::Iterator::fold', 'core::iter::traits::iterator::Iterator::for_each',
       'core::iter::traits::iterator::Iterator::collect', 'core::iter::traits::iterator::Iterator::count',
       'core::iter::traits::iterator::Iterator::position', 'core::iter::traits::iterator::Iterator::find',
       'core::iter::traits::iterator::Iterator::try_for_each', 'core::iter::traits::iterator::Iterator::sum',
       'core::iter::traits::iterator::Iterator::find_map', 'core::iter::traits::iterator::Iterator::last')
def iter_loop(e, cx):
    return e.synth_iter(cx, cx.c['path'].rsplit('::', 1)[1])


# ---------------------------------------------------------------- HashSet
@model('std::collections::hash::set::{impl}::new', 'std::collections::hash::set::{impl}::with_capacity', 'alloc::collections::btree::set::{impl}::new')
def set_new(e, cx):
    if cx.args:
        e.allocs.append((cx.args[0], cx.s.copy(), e.chain(), cx.fr.fn, cx.span))
    return ret(cx, mkT('set', mkT('empty'), ()))


@model('std::collections::hash::set::{impl}::insert', 'alloc::collections::btree::set::{impl}::insert')
def set_insert(e, cx):
    l = innermost_loc(e, cx.s, cx.args[0])
    if not loc(l):
        return None
    v = e.get_path(cx.s, l.a[0], l.a[1])
    key = cx.args[1]
    e.setkeys.append((key, e.chain()))
    base = v.a[0] if isinstance(v, T) and v.tag == 'set' else mkT('unknownset')
    p = mkT('ptm', mkT('setnew', base, key))
    e.write_loc(cx.s, l.a[0], l.a[1], mkT('set', mkT('ins', base, key), ()))
    return ret(cx, p)


@model('std::collections::hash::set::{impl}::contains', 'alloc::collections::btree::set::{impl}::contains')
def set_contains(e, cx):
    v = inner(e, cx)
    key = e.strip(cx.s, cx.args[1])
    if isinstance(v, T) and v.tag == 'set':
        return ret(cx, mkT('npt', mkT('setnew', v.a[0], key)))
    return None


# ---------------------------------------------------------------- strings
@model('cesu8::from_java_cesu8', 'cesu8::from_cesu8')
def cesu8(e, cx):
    q = as_seq(e, cx.s, cx.args[0])
    fn = cx.c['path']
    if q is None:
        return None
    key = mkT('bytes', q.a[0], q.a[1], q.a[2])
    ok = e.truth(cx.s, mkT('ptm', mkT('cesu_ok', fn, key)))
    vs = e.tys[cx.dty]['vs']
    if ok:
        return ret(cx, adt(cx.dty, 0, (mkT('sym', mkT('cesu', fn, key), vs[0][2][0][1]),)))
    return ret(cx, adt(cx.dty, 1, (TOP,)))


@model('core::str::converts::from_utf8', 'core::str::{impl}::from_utf8')
def from_utf8(e, cx):
    q = as_seq(e, cx.s, cx.args[0])
    if q is None:
        return None
    key = mkT('bytes', q.a[0], q.a[1], q.a[2])
    ok = e.truth(cx.s, mkT('ptm', mkT('utf8_ok', key)))
    if ok:
        return ret(cx, adt(cx.dty, 0, (mkT('str', mkT('utf8', key)),)))
    return ret(cx, adt(cx.dty, 1, (TOP,)))


def strmod(*names):
    def f(fn):
        for n in names:
            TABLE['core::str::{impl}::' + n] = fn
            TABLE['alloc::string::{impl}::' + n] = fn
            TABLE['alloc::str::{impl}::' + n] = fn
        return fn
    return f


@strmod('len', 'is_empty')
def str_len(e, cx):
    v = inner(e, cx)
    if not (isinstance(v, T) and (v.tag in ('str', 'strv') or e.stringish_val(v))):
        return None
    t = e.strterm(cx.s, v)
    n = e.strlen(cx.s, t)
    if cx.c['path'].endswith('len'):
        return ret(cx, n)
    return ret(cx, e.str_empty(cx, t, n))


@strmod('as_bytes', 'as_str', 'into_bytes')
def str_as(e, cx):
    t = e.strterm(cx.s, cx.args[0])
    if cx.c['path'].endswith('as_str'):
        return ret(cx, mkT('str', t))
    return ret(cx, e.str_bytes(cx.s, t, cx.dty))


@strmod('chars', 'char_indices', 'bytes')
def str_chars(e, cx):
    t = e.strterm(cx.s, cx.args[0])
    kind = {'chars': 'c', 'char_indices': 'ci', 'bytes': 'b'}[cx.c['path'].rsplit('::', 1)[1]]
    v = e.chars_new(cx.s, t, kind)
    return None if v is None else ret(cx, v)


@strmod('split')
def str_split(e, cx):
    t = e.strterm(cx.s, cx.args[0])
    if e.strmode:
        v = e.split_new(cx, t, cx.args[1])
        return None if v is None else ret(cx, v)
    return ret(cx, mkT('sspl', t, const(0), const(0), cx.args[1]))


@strmod('starts_with', 'ends_with', 'contains', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'trim', 'eq_ignore_ascii_case',
        'is_char_boundary', 'get', 'trim_start_matches', 'trim_end_matches', 'split_at', 'matches')
def str_misc(e, cx):
    return e.str_misc(cx, cx.c['path'].rsplit('::', 1)[1])


@strmod('repeat')
def str_repeat(e, cx):
    return ret(cx, mkT('strv', mkT('rep', e.strterm(cx.s, cx.args[0]), cx.args[1])))


@model('alloc::string::ToString::to_string', 'alloc::string::{impl}::from', 'alloc::str::{impl}::to_string', 'alloc::string::{impl}::to_owned')
def to_string(e, cx):
    s = cx.s
    v = e.strip(s, cx.args[0])
    if isinstance(v, T) and (v.tag in ('str', 'strv') or e.stringish_val(v)):
        t = e.strterm(s, v)
        if t.tag != 'lit':
            e.copies.append(('to_string', t, e.chain()))
        return ret(cx, e.owned_str(t, cx.dty))
    return ret(cx, mkT('strv', e.fresh('fmt')))


@model('alloc::fmt::format', 'alloc::string::{impl}::new', 'alloc::string::{impl}::with_capacity')
def fmt_format(e, cx):
    return ret(cx, mkT('strv', e.fresh('fmt')))


# ---------------------------------------------------------------- fmt: never panics by itself
# Where the formatter is being tracked (the location it refers to holds a list of pieces), what is written is appended to the list.
# The sink itself is assumed not to fail.
@model('core::fmt::rt::{impl}::new_display', 'core::fmt::rt::{impl}::new_debug', 'core::fmt::rt::{impl}::new_lower_hex', 'core::fmt::rt::{impl}::new_upper_hex')
def fmt_arg(e, cx):
    ts = cx.c.get('targs') or [None]
    return ret(cx, mkT('fmtarg', cx.c['path'].rsplit('::', 1)[1], cx.args[0], ts[-1]))


@model('core::fmt::{impl}::new')
def fmt_args(e, cx):
    if len(cx.args) == 2:
        t, a = e.strip(cx.s, cx.args[0]), e.strip(cx.s, cx.args[1])
        if isinstance(t, T) and t.tag == 'arr' and isinstance(a, T) and a.tag == 'arr' and all(isinstance(x, Lin) and x.isconst() for x in t.a[0]):
            return ret(cx, mkT('fmtargs', tuple(x.c for x in t.a[0]), a.a[0]))
    return [(cx.s, TOP)]


@model('core::fmt::{impl}::from_str', 'core::fmt::{impl}::from_str_nonconst')
def fmt_from_str(e, cx):
    t = e.strterm(cx.s, cx.args[0])
    if t.tag == 'lit':
        return ret(cx, mkT('fmtlit', t.a[0]))
    return [(cx.s, TOP)]


@model('core::fmt::rt::{impl}::none', 'core::fmt::{impl}::new_const', 'core::fmt::{impl}::new_v1')
def fmt_other(e, cx):
    return [(cx.s, TOP)]


def fmt_template(t):
    """pieces of an encoded format string (the format is documented at core::fmt::Arguments), or None"""
    i = n = 0
    out = []
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(bytes(t[i:i + b]).decode('utf-8'))
            i += b
        elif b == 0x80:
            k = t[i] + 256 * t[i + 1]
            out.append(bytes(t[i + 2:i + 2 + k]).decode('utf-8'))
            i += 2 + k
        elif b == 0xC0:
            out.append(n)
            n += 1
        else:
            return None
    return out


def fmt_sink(e, s, v):
    l = innermost_loc(e, s, v)
    if loc(l):
        x = e.get_path(s, l.a[0], l.a[1])
        if isinstance(x, T) and x.tag == 'list' and x.a[1] == 'fmt':
            return l
    return None


def fmt_put(e, s, l, *pieces):
    v = e.get_path(s, l.a[0], l.a[1])
    segs = v.a[0]
    if segs and segs[-1].tag == 'items':
        segs = segs[:-1] + (mkT('items', segs[-1].a[0] + pieces),)
    else:
        segs = segs + (mkT('items', pieces),)
    e.write_loc(s, l.a[0], l.a[1], mkT('list', segs, 'fmt'))


def fmt_display(e, fr, span, s, l, x, ty, kind='new_display'):
    """write x, a (reference to a) value of type ty, to the sink at l: [(state, failed)]"""
    while ty is not None and e.tys[ty]['k'] in ('ref', 'ptr'):
        ty = e.tys[ty]['e']
    nm = e.tname(ty) if ty is not None else None
    while nm in RC and e.tys[ty].get('targs'):
        ty = e.tys[ty]['targs'][0]
        nm = e.tname(ty)
    v = e.strip(s, x)
    k = e.tys[ty]['k'] if ty is not None else None
    if kind == 'new_display':
        fn = next((f for f in e.p.fns if f.trait == 'std::fmt::Display' and f.local and f.body is not None and
                   e.tys[f.body.locals[1]].get('e') == ty), None)
        if fn is not None:
            while isinstance(x, T) and x.tag in ('ref', 'rv') and isinstance(e.deref(s, x), T) and e.deref(s, x).tag in ('ref', 'rv'):
                x = e.deref(s, x)
            outs = e.call_inst(fr, span, fn.id, [x, mkT("ref", l.a[0], l.a[1])], s, fn.body.locals[0])
            return [(st, r) for st, r in outs]
        if isinstance(v, Lin):
            fmt_put(e, s, l, mkT('piece', 'char' if k == 'char' else 'int', v))
            return [(s, None)]
        if k == 'char':
            fmt_put(e, s, l, mkT('piece', 'char', v))
            return [(s, None)]
        if k == 'str' or nm in ('alloc::string::String', 'alloc::borrow::Cow'):
            fmt_put(e, s, l, mkT('piece', 'str', e.strterm(s, v)))
            return [(s, None)]
    fmt_put(e, s, l, mkT('piece', 'unknown', e.fresh('piece')))
    return [(s, None)]


def fmt_run(e, fr, span, s, l, pieces, dty):
    """write the pieces one after the other: [(state, Result)]"""
    work = [(s, 0)]
    out = []
    okv = adt(dty, 0, (UNIT,))
    while work:
        s, i = work.pop()
        if i == len(pieces):
            out.append((s, okv))
            continue
        p = pieces[i]
        if isinstance(p, str):
            if p:
                fmt_put(e, s, l, mkT('piece', 'str', mkT('lit', p)))
            work.append((s, i + 1))
            continue
        kind, x, ty = p
        for st, r in fmt_display(e, fr, span, s, l, x, ty, kind):
            if r is None:
                work.append((st, i + 1))
                continue
            v = r if r.tag == 'adt' else e.resolve_variant(st, r)
            if v.a[1] == 0:
                work.append((st, i + 1))
            else:
                out.append((st, adt(dty, 1, v.a[2])))
    return out


@model('core::fmt::{impl}::write_fmt', 'core::fmt::Write::write_fmt')
def fmt_write_fmt(e, cx):
    l = fmt_sink(e, cx.s, cx.args[0])
    if l is None:
        return None
    a = cx.args[1]
    if isinstance(a, T) and a.tag == 'fmtlit':
        ps = [a.a[0]]
    elif isinstance(a, T) and a.tag == 'fmtargs':
        ps = fmt_template(a.a[0])
        if ps is not None:
            if any(isinstance(p, int) and not (p < len(a.a[1]) and isinstance(a.a[1][p], T) and a.a[1][p].tag == 'fmtarg') for p in ps):
                ps = None
            else:
                ps = [p if isinstance(p, str) else a.a[1][p].a for p in ps]
    else:
        ps = None
    if ps is None:
        fmt_put(e, cx.s, l, mkT('piece', 'unknown', e.fresh('piece')))
        return ret(cx, adt(cx.dty, 0, (UNIT,)))
    return fmt_run(e, cx.fr, cx.span, cx.s, l, ps, cx.dty)


@model('core::fmt::{impl}::write_str', 'core::fmt::{impl}::pad', 'core::fmt::Write::write_str')
def fmt_write_str(e, cx):
    l = fmt_sink(e, cx.s, cx.args[0])
    if l is None:
        return None
    fmt_put(e, cx.s, l, mkT('piece', 'str', e.strterm(cx.s, cx.args[1])))
    return ret(cx, adt(cx.dty, 0, (UNIT,)))


@model('core::fmt::{impl}::write_char', 'core::fmt::Write::write_char')
def fmt_write_char(e, cx):
    l = fmt_sink(e, cx.s, cx.args[0])
    if l is None:
        return None
    fmt_put(e, cx.s, l, mkT('piece', 'char', cx.args[1]))
    return ret(cx, adt(cx.dty, 0, (UNIT,)))


@model('core::fmt::Display::fmt', 'core::fmt::{impl}::fmt', 'alloc::string::{impl}::fmt', 'alloc::borrow::{impl}::fmt', 'core::str::{impl}::fmt',
       'core::char::{impl}::fmt')
def fmt_display_call(e, cx):
    l = fmt_sink(e, cx.s, cx.args[1]) if len(cx.args) == 2 else None
    if l is None:
        return None
    if not (cx.c.get('path') == 'core::fmt::Display::fmt' and cx.argtys and cx.argtys[0] is not None):
        fmt_put(e, cx.s, l, mkT('piece', 'unknown', e.fresh('piece')))
        return ret(cx, adt(cx.dty, 0, (UNIT,)))
    return fmt_run(e, cx.fr, cx.span, cx.s, l, [('new_display', cx.args[0], cx.argtys[0])], cx.dty)


# ---------------------------------------------------------------- panicking library helpers modelled precisely
@model('core::option::{impl}::unwrap', 'core::option::{impl}::expect', 'core::result::{impl}::unwrap', 'core::result::{impl}::expect')
def unwrap(e, cx):
    v = cx.args[0]
    if not (isinstance(v, T) and v.tag in ('adt', 'sym')):
        return None
    ty = v.a[0] if v.tag == 'adt' else v.a[1]
    okv = 0 if e.tname(ty) == 'core::result::Result' else 1
    if v.tag == 'sym':
        v = e.resolve_variant(cx.s, v)
    ok = v.a[1] == okv
    e.obl.append(((cx.fr.fn.id, tuple(cx.span or ()), 'unwrap'), ok, None if ok else e.chain(), None if ok else 'unwrap of ' + e.tys[ty]['vs'][v.a[1]][0]))
    if not ok:
        return []
    return ret(cx, v.a[2][0])


@model('core::intrinsics::cold_path', 'core::intrinsics::assume', 'core::intrinsics::assert_unsafe_precondition',
       'core::ub_checks::check_language_ub')
def nop(e, cx):
    return ret(cx, UNIT if e.tys[cx.dty]['k'] == 'tuple' else False)


@model('core::num::{impl}::unchecked_add::precondition_check', 'core::num::{impl}::unchecked_sub::precondition_check')
def nop2(e, cx):
    return ret(cx, UNIT)
