"""Whole-crate analysis: the public entry points, the recursive contracts and the result accessors."""
import sys
import interp
from interp import *
from values import *
from lin import *

PARSE = 'cafebabe::parse_class_with_options'
SETTER = 'cafebabe::{impl}::parse_bytecode'
ITER = 'cafebabe::{impl}::constantpool_iter'


class Analysis:
    def __init__(self, P, ptr=64, roots=True):
        self.P = P
        self.ptr = ptr
        fn = self.fn_parse = self.find(PARSE)
        if fn is None:
            raise AnalysisError('public entry point parse_class_with_options not found')
        rt = P.tys[fn.body.locals[0]]
        if rt.get('name') != interp.ERR_OK:
            raise AnalysisError('parse_class_with_options does not return a Result')
        self.errty = rt['vs'][1][2][0][1]
        self.textfns = {}
        E = self.E = Engine(P, ptr=ptr, errty=self.errty)
        s = new_state()
        args = [E.symval(mkT('arg', i), fn.body.locals[i]) for i in range(1, fn.body.argc + 1)]
        self.args = args
        self.outs = E.run_fn(fn, args, s)
        self.oks = [(st, v.a[2][0]) for st, v in self.outs if not E.is_err(v)]
        if roots:
            E.run_roots()

    def find(self, npath):
        c = [f for f in self.P.fns if f.npath == npath and f.body]
        return c[0] if c else None

    def local_roots(self):
        """hand-written public functions (span in a file of the crate)"""
        for r in self.P.roots:
            f = self.P.files[r['span'][0]] if r.get('span') else ''
            if r.get('derived') or f.startswith('/'):
                continue
            yield r

    # ------------------------------------------------------------ the constant-pool iterator
    def iter_states(self):
        """(state, root of the iterator value, next fn): every reachable iterator state of every parsed class"""
        E = self.E
        it = self.find(ITER)
        if it is None:
            raise AnalysisError('ClassFile::constantpool_iter not found')
        res = []
        for n, (st, cls) in enumerate(self.oks):
            s = st.copy()
            root = ('A', 'class', n)
            s.mem[root] = cls
            for s2, v in E.run_fn(it, [mkT('ref', root, ())], s):
                res.append((s2, v))
        return res

    def next_fn(self, ty):
        for r in self.P.roots:
            if r.get('trait', '').endswith('Iterator') and r['path'].endswith('::next') and r.get('inst') is not None:
                f = self.P.fns[r['inst']]
                if f.body and f.body.argc == 1:
                    t = self.P.tys[f.body.locals[1]]
                    if t['k'] == 'ref' and t['e'] == ty:
                        return f
        return None

    def run_iter(self):
        """one next() step from every reachable state: [(pre state, pre value, [(post state, result, post value)])]"""
        if hasattr(self, '_iter'):
            return self._iter
        E = self.E
        out = []
        self.iter_inv = []
        for s, v in self.iter_states():
            fn = self.next_fn(v.a[0] if v.tag == 'adt' else v.a[1])
            if fn is None:
                raise AnalysisError('Iterator::next of the constant-pool iterator not found')
            leaves = [(p, x) for p, x in int_leaves(E, v, ())]
            gens = {}
            g = v
            for i, (p, x) in enumerate(leaves):
                a = atom(('sy', mkT('itst', i)), 0, E.lenmax())
                gens[p] = (a, x)
            lens = set()
            interp._lens(v, lens)
            for l in lists_in(v):
                lens.add(E.list_len(l))
            cands = []
            for p, (a, x) in gens.items():
                cands += [var(a) - x, x - var(a)] + [l - var(a) for l in lens if isinstance(l, Lin)] + [l - 1 - var(a) for l in lens if isinstance(l, Lin)]
            m0 = {a: x for a, x in gens.values()}
            cands = [c for c in dict.fromkeys(cands) if s.st.ge0(subst(c, m0))]
            while True:
                s1 = s.copy()
                g = v
                for p, (a, x) in gens.items():
                    g = put_leaf(g, p, var(a))
                for c in cands:
                    s1.st.assume('ge', c)
                root = ('A', 'iter')
                s1.mem[root] = g
                n0 = len(E.obl)
                nl = len(E.loopfinal)
                pre = s1.copy()
                posts = E.run_fn(fn, [mkT('ref', root, ())], s1)
                bad = []
                for st, r in posts:
                    m = {}
                    for p, (a, x) in gens.items():
                        m[a] = get_leaf(st.mem[root], p)
                    for c in cands:
                        if c not in bad and not st.st.ge0(subst(c, m)):
                            bad.append(c)
                if not bad:
                    break
                cands = [c for c in cands if c not in bad]
                del E.obl[n0:]
                del E.loopfinal[nl:]
            out.append((pre, g, [(st, r, st.mem[root]) for st, r in posts]))
            self.iter_inv.append([str(c) for c in cands])
        self._iter = out
        return out

    # ------------------------------------------------------------ the option
    def textfn(self, key, dfa):
        """outcomes of a function of a text (see texts.py), or None"""
        r = self.textfns.get(key)
        if r is None:
            import texts
            fid, pat = key
            r = self.textfns[key] = texts.analyse(self.P, self.errty, fid, pat, dfa, ptr=self.ptr)
        return r

    def option(self):
        """(term of the option field of the parse under analysis, whether True means on)"""
        if hasattr(self, '_option'):
            return self._option
        self._option = (None, True)
        fn = self.find(SETTER)
        if fn is None:
            return self._option
        ty = self.P.tys[fn.body.locals[1]]['e']
        fields = self.P.tys[ty]['vs'][0][2]
        res = {}
        for b in (True, False):
            s = new_state()
            root = ('A', 'opts', b)
            s.mem[root] = self.E.symval(mkT('arg', 'opts'), ty)
            for st, _ in self.E.run_fn(fn, [mkT('ref', root, ()), b], s):
                for i in range(len(fields)):
                    v = self.E.proj(st.mem[root], 0, i) if hasattr(self.E, 'proj') else st.mem[root].a[2][i]
                    res.setdefault((b, i), set()).add(v)
        for i in range(len(fields)):
            for on in (True, False):
                if res.get((True, i)) == {on} and res.get((False, i)) == {not on}:
                    self._option = (mkT('pj', mkT('dr', mkT('arg', 2)), 0, i), on)
        return self._option

    # ------------------------------------------------------------ other accessors
    def run_symbolic(self, fn):
        E = self.E
        s = new_state()
        args = []
        for i in range(1, fn.body.argc + 1):
            ty = fn.body.locals[i]
            t = self.P.tys[ty]
            if t['k'] == 'ref' and t['mut']:
                root = ('A', fn.id, i)
                s.mem[root] = E.symval(mkT('arg', fn.id, i), t['e'])
                args.append(mkT('ref', root, ()))
            else:
                args.append(E.symval(mkT('arg', fn.id, i), ty))
        self.lastargs = list(args)
        return E.run_fn(fn, args, s)


def int_leaves(E, v, path):
    if isinstance(v, Lin):
        yield path, v
    elif isinstance(v, T):
        if v.tag == 'adt':
            for i, x in enumerate(v.a[2]):
                yield from int_leaves(E, x, path + ((2, i),))
        elif v.tag == 'siter':
            for i, x in enumerate(v.a):
                if i > 0 and isinstance(x, Lin):
                    yield path + (('a', i),), x


def lists_in(v):
    acc = set()
    subterms(v, acc)
    return [t for t in acc if t.tag == 'list']


def get_leaf(v, path):
    for k, i in path:
        v = v.a[2][i] if k == 2 else v.a[i]
    return v


def put_leaf(v, path, x):
    if not path:
        return x
    k, i = path[0]
    a = list(v.a)
    if k == 2:
        fs = list(a[2])
        fs[i] = put_leaf(fs[i], path[1:], x)
        a[2] = tuple(fs)
    else:
        a[i] = put_leaf(a[i], path[1:], x)
    return mkT(v.tag, *a)
