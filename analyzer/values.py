"""Hash-consed abstract values and terms."""
from lin import Lin, Atom, atom, mk, const, var


class T:
    __slots__ = ('tag', 'a', 'h', 'lp', 'n')
    table = {}
    cnt = 0

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def loops_in(self):
        return self.lp

    def __repr__(self):
        return showT(self)


def _lp(x, acc):
    if isinstance(x, (T, Atom)):
        acc |= x.lp if isinstance(x, T) else x.loops
    elif isinstance(x, Lin):
        acc |= x.loops()
    elif isinstance(x, tuple):
        for y in x:
            _lp(y, acc)


def mkT(tag, *a):
    key = (tag, a)
    r = T.table.get(key)
    if r is None:
        r = T()
        r.tag = tag
        r.a = a
        r.h = hash(key)
        acc = set()
        if tag == 'lvs':
            acc.add(a[0])
        _lp(a, acc)
        r.lp = frozenset(acc)
        r.n = T.cnt
        T.cnt += 1
        T.table[key] = r
    return r


UNIT = mkT('tup', ())
TOP = mkT('top')


def adt(ty, variant, fields):
    return mkT('adt', ty, variant, tuple(fields))


def tup(*fs):
    return mkT('tup', tuple(fs))


def rv(v):
    return mkT('rv', v)


def sref(root, path=()):
    return mkT('ref', root, path)


def items(*vs):
    return mkT('items', tuple(vs))


_sub_memo = {}


def subst(x, m, memo=None):
    """replace atoms by Lins (m: Atom->Lin, and T->T) throughout a term/value."""
    if memo is None:
        memo = {}
    ls = set()
    for a in m:
        if isinstance(a, Atom):
            ls |= a.loops
    return _subst(x, m, memo, frozenset(ls))


def _subst(x, m, memo, ls):
    if isinstance(x, Lin):
        if not x.t:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = const(x.c)
        for a, k in x.t:
            if a in m:
                r = r + m[a].scale(k)
            elif ls and not (a.loops & ls):
                r = r + mk(((a, k),), 0)
            else:
                r = r + _subst_atom(a, m, memo, ls).scale(k)
        memo[x] = r
        return r
    if isinstance(x, T):
        if ls and not (x.lp & ls) and not any(isinstance(q, T) for q in m):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            return m[x]
        r = mkT(x.tag, *[_subst(y, m, memo, ls) for y in x.a])
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo, ls) for y in x)
    return x


def _subst_atom(a, m, memo, ls):
    r = memo.get(a)
    if r is not None:
        return r
    key = a.key
    nk = tuple(_subst(y, m, memo, ls) if isinstance(y, (Lin, T, tuple)) else y for y in key)
    if nk == key:
        r = var(a)
    else:
        r = rebuild_atom(nk, a)
    memo[a] = r
    return r


def rebuild_atom(nk, a):
    k = nk[0]
    if k in ('wrap',) and isinstance(nk[3], Lin) and nk[3].isconst():
        return const(wrapc(nk[3].c, nk[1], nk[2]))
    if k == 'mod' and nk[1].isconst():
        return const(nk[1].c % nk[2])
    if k == 'and' and nk[1].isconst():
        return const(nk[1].c & nk[2])
    if k == 'div' and nk[1].isconst():
        return const(nk[1].c // nk[2])
    return var(atom(nk, a.lo, a.hi, a.dom))


def wrapc(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def subterms(x, acc):
    """all T subterms of x (through Lins and atoms)."""
    if isinstance(x, T):
        if x in acc:
            return
        acc.add(x)
        for y in x.a:
            subterms(y, acc)
    elif isinstance(x, Lin):
        for a, _ in x.t:
            subterms(a, acc)
    elif isinstance(x, Atom):
        for y in x.key:
            subterms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            subterms(y, acc)


_els = {}


def els_of(x):
    """'el' terms (elements of abstract lists) occurring in x, memoised."""
    r = _els.get(x)
    if r is None:
        acc = set()
        if isinstance(x, tuple):
            for a, _ in x:
                subterms(a, acc)
        else:
            subterms(x, acc)
        r = tuple(sorted((t for t in acc if t.tag == 'el'), key=lambda t: t.n))
        _els[x] = r
    return r


def showT(x, d=0):
    if d > 7:
        return '…'
    if isinstance(x, T):
        a = x.a
        if x.tag == 'adt':
            return f'{a[0]}#{a[1]}({", ".join(showT(y, d + 1) for y in a[2])})'
        if x.tag == 'list':
            return 'list[' + ' '.join(showT(y, d + 1) for y in a[0]) + ']'
        return f'{x.tag}({", ".join(showT(y, d + 1) for y in a)})'
    if isinstance(x, tuple):
        return '(' + ','.join(showT(y, d + 1) for y in x) + ')'
    return str(x)
