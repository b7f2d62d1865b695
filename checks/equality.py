"""Equality, order, hashing and cloning of the crate's own types, decided per trait implementation.

Implementations generated by the compiler's built-in derives are structural by construction.  A hand-written one is interpreted
over two arbitrary values: an outcome that says 'equal' must have all parts equal, one that says 'different' must have a part
that differs; 'Equal' of an order likewise; a clone must have the parts of its original.  A hand-written hash may only pass parts
of the value on to other hashes (equal values then hash equally)."""
from interp import *
from values import *
from lin import *
import analysis
import models

TRAITS = {'std::cmp::PartialEq': 'eq', 'std::cmp::Eq': 'eq', 'std::cmp::PartialOrd': 'ord', 'std::cmp::Ord': 'ord', 'std::hash::Hash': 'hash', 'std::clone::Clone': 'clone'}
HASHCALLS = ('std::hash::Hash::hash', 'std::hash::Hasher::write', 'std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::mem::discriminant',
             'std::borrow::Borrow::borrow', 'std::iter::IntoIterator::into_iter', 'std::iter::Iterator::next', 'core::slice::', 'std::slice::', 'core::str::', 'std::vec::Vec', 'str::', 'alloc::vec::')


class EqEngine(Engine):
    """calls on vectors as a whole are kept as one predicate"""


class Decide:
    def __init__(self, P):
        self.P = P
        fn = [f for f in P.fns if f.npath == analysis.PARSE and f.body][0]
        errty = P.tys[fn.body.locals[0]]['vs'][1][2][0][1]
        self.E = Engine(P, ptr=64, errty=errty)

    def fields(self, v, ty, variant=0):
        t = self.P.tys[ty]
        return t['vs'][variant][2] if t['k'] == 'adt' else None

    def pred(self, st, p):
        if isinstance(p, bool):
            return p
        return self.E.decide(st, p)

    def compare(self, st, x, y, depth=0):
        """True: all parts equal, False: some part differs, None: not known"""
        E = self.E
        x, y = E.strip(st, x), E.strip(st, y)
        if x is y:
            return True
        if depth > 8:
            return None
        if isinstance(x, Lin) and isinstance(y, Lin):
            if st.st.eq0(x - y):
                return True
            return False if self.pred(st, mkT('cmp', 'eq', x - y)) is False else None
        if isinstance(x, bool) or isinstance(y, bool) or getattr(x, 'tag', '') in ('ptm', 'npt', 'cmp'):
            a, b = self.pred(st, x), self.pred(st, y)
            return None if a is None or b is None else a == b
        if not isinstance(x, T) or not isinstance(y, T) or 'top' in (x.tag, y.tag):
            return None
        if E.stringish_val(x) or E.stringish_val(y):
            return self.pred(st, E.str_eq(None, E.strterm(st, x), E.strterm(st, y)))
        if x.tag == 'list' and y.tag == 'list' or x.tag == 'sl' and y.tag == 'sl':
            return self.pred(st, vec_eq(x, y))
        if x.tag in ('tup', 'arr') and y.tag == x.tag and len(x.a[0]) == len(y.a[0]):
            return self.every(self.compare(st, a, b, depth + 1) for a, b in zip(x.a[0], y.a[0]))
        if x.tag in ('sym', 'adt') and y.tag in ('sym', 'adt'):
            vx, vy = E.variants(st, x), E.variants(st, y)
            if not vx & vy:
                return False
            if len(vx) != 1 or len(vy) != 1:
                return None
            k = next(iter(vx))
            ty = x.a[1] if x.tag == 'sym' else x.a[0]
            fs = self.fields(x, ty, k)
            if fs is None:
                return None
            return self.every(self.compare(st, E.field(x, k, i, f[1]), E.field(y, k, i, f[1]), depth + 1) for i, f in enumerate(fs))
        return None

    def every(self, rs):
        rs = list(rs)
        if any(r is False for r in rs):
            return False
        return True if all(rs) else None

    def outcomes(self, fn):
        s = new_state()
        args = []
        for i in range(1, fn.body.argc + 1):
            args.append(self.E.symval(mkT('arg', fn.id, i), fn.body.locals[i]))
        for st, v in self.E.run_fn(fn, args, s):
            yield args, st, v

    def decide(self, fn, kind, name):
        """-> None when structural, else what is wrong"""
        n = 0
        for args, st, v in self.outcomes(fn):
            if kind == 'clone':
                n += 1
                r = self.compare(st, args[0], v)
                if r is not True:
                    return 'a clone need not have the parts of its original'
                continue
            for st2, b in self.split(st, v):
                n += 1
                if kind == 'ord':
                    b = self.ordering(st2, b)
                    if b is None:
                        return 'the order of two values cannot be stated'
                elif not isinstance(b, bool):
                    return 'the outcome of a comparison cannot be stated'
                if name == 'ne':
                    b = not b
                r = self.compare(st2, args[0], args[1])
                if b and r is not True:
                    return 'two values that differ in a part can compare equal'
                if not b and r is not False:
                    return 'two values with equal parts can compare different'
        return None if n else 'no outcome'

    def split(self, st, v):
        E = self.E
        if isinstance(v, T) and v.tag in ('cmp', 'ptm', 'npt'):
            for b in (True, False):
                s = st.copy()
                try:
                    if E.assume(s, v, b):
                        yield s, b
                except Infeasible:
                    pass
        else:
            yield st, v

    def ordering(self, st, v):
        """whether an Ordering (or an optional one) says equal"""
        E = self.E
        v = E.strip(st, v)
        if isinstance(v, T) and v.tag == 'adt' and E.tname(v.a[0]) == 'core::option::Option':
            if v.a[1] == 0:
                return None
            v = v.a[2][0]
        if isinstance(v, T) and v.tag in ('adt', 'sym'):
            vs = E.variants(st, v)
            if vs == frozenset((1,)):
                return True
            if 1 not in vs:
                return False
        return None


def vec_eq(x, y):
    return models.whole_eq(x, y)


def run(cx, P):
    """yields (key, ok, title, detail, where) per implementation"""
    from checks import rank
    D = None
    for r in P.raw['roots']:
        k = TRAITS.get(r.get('trait', ''))
        if k is None or not r.get('self'):
            continue
        if k in ('eq', 'ord') and r.get('rhs') and r['rhs'] != r['self']:
            continue
        name = r['path'].rsplit('::', 1)[-1]
        if name not in ('eq', 'ne', 'cmp', 'partial_cmp', 'hash', 'clone'):
            if r.get('derived'):
                continue
        key = f"{name}:{r['self'].split('<')[0]}"
        where = P.files[r['span'][0]] + ':' + str(r['span'][1]) if r.get('span') else r['path']
        if r.get('derived'):
            yield key, True, '', '', where
            continue
        if k == 'hash':
            bad = [c for c in r.get('calls', ['?']) if not c.startswith(HASHCALLS) and c.split('<')[0] not in HASHCALLS]
            yield key, not bad, 'a hand-written hash does more than hash parts of the value', ', '.join(bad)[:300], where
            continue
        if r.get('inst') is None or not P.fns[r['inst']].body or name not in ('eq', 'ne', 'cmp', 'partial_cmp', 'clone'):
            yield key, False, 'a hand-written comparison that cannot be analysed', r['path'], where
            continue
        D = D or Decide(P)
        try:
            why = D.decide(P.fns[r['inst']], k, name)
        except (AnalysisError, Split, Infeasible, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            why = f'the comparison cannot be analysed ({type(e).__name__}: {str(e)[:150]})'
        yield key, why is None, why or '', r['path'], where
