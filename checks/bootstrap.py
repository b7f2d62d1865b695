"""Bootstrap-method indices (C15): the pool is gone through completely, and for every entry that uses a bootstrap method the class
attributes are gone through completely, counting the BootstrapMethods ones, each of which must be long enough; the count is one."""
from lin import Lin, const, var, atom
from values import T, mkT, subst
from interp import Infeasible, AnalysisError, Split
from checks.match import Node, Kind, same
from checks.jumps import els, oflist

USERS = ('Dynamic', 'InvokeDynamic')


class Bootstrap(Node):
    def __init__(self, attrs):
        self.attrs = attrs

    # ---------------------------------------------------------- what is looked at
    def list(self, m, f):
        b = f.env.get(self.attrs)
        if b is None:
            return None
        if b[0] == 'rec':
            return b[2]
        p, env = b
        tab = env.get('attributes') if isinstance(env, dict) else None
        if tab and tab[0] == 'tab' and tab[2] is not None:
            rec, kx = tab[2], tab[5]
            for bk in rec.backs:
                for leaf in bk.pushes:
                    h = m.poolhead(rec, leaf)
                    if h is not None:
                        return subst(h, {rec.k: kx})
        return None

    def setup(self, m):
        P = m.P
        ai = [i for i, t in enumerate(P.tys) if t['k'] == 'adt' and m.tyname(i) == 'AttributeInfo']
        ad = [i for i, t in enumerate(P.tys) if t['k'] == 'adt' and m.tyname(i) == 'AttributeData']
        if not ai or not ad:
            raise AnalysisError('AttributeInfo/AttributeData not found')
        names = [x[0] for x in P.tys[ai[0]]['vs'][0][2]]
        vs = [x[0] for x in P.tys[ad[0]]['vs']]
        return names.index('data'), vs.index('BootstrapMethods')

    def is_len(self, m, L):
        return m.E.lenof(L) if not (isinstance(L, T) and L.tag == 'list') else m.E.list_len(L)

    def counter(self, m, rec, L, kx):
        """integers of the loop that count the BootstrapMethods attributes of L among the first kx"""
        data, bv = self.setup(m)
        out = []
        for lf in rec.gen:
            g = rec.gvals.get(lf)
            try:
                ev = m.E.get_path_v(rec.entry, lf)
            except (KeyError, AnalysisError, Split, Infeasible):
                continue
            if not (isinstance(g, Lin) and isinstance(ev, Lin) and rec.entry.st.eq0(ev)):
                continue
            ok = bool(rec.backs)
            for b in rec.backs:
                st = b.state
                nx = b.next.get(lf)
                e = [x for x in els(st, L) if same(st, x.a[1], var(rec.k))]
                vs = st.var.get(mkT('pj', e[0], 0, data)) if e else None
                if not isinstance(nx, Lin):
                    ok = False
                elif same(st, nx, g):
                    ok = ok and vs is not None and bv not in vs
                elif same(st, nx, g + 1):
                    ok = ok and vs == frozenset((bv,))
                else:
                    ok = False
            if ok:
                out.append(subst(g, {rec.k: kx}))
        return out

    def long_enough(self, m, rec, L, x):
        """every BootstrapMethods attribute the loop goes through has more than x entries"""
        data, bv = self.setup(m)
        for b in rec.backs:
            st = b.state
            e = [y for y in els(st, L) if same(st, y.a[1], var(rec.k))]
            d = mkT('pj', e[0], 0, data) if e else None
            vs = st.var.get(d) if e else None
            if vs is not None and bv not in vs:
                continue
            if vs is None or not st.st.ge0(m.E.lenof(mkT('pj', d, bv, 0)) - 1 - x):
                return False
        return True

    # ---------------------------------------------------------- the two directions
    def run(self, m, f):
        L = self.list(m, f)
        if m.mode == 'ok':
            if L is None:
                m.fail(f, 'bootstrap', 'the list of class attributes is not identified')
            else:
                self.check(m, f, L)
            yield f
            return
        if L is None or self.assume(m, f.st, L):
            yield f

    def check(self, m, f, L):
        m.count['bootstrap'] = m.count.get('bootstrap', 0) + 1
        if any(k not in m.shape for k in USERS):
            return
        pl = m.poolcount
        msg = 'no loop of this path goes through the whole constant pool to check bootstrap method indices'
        for i, e in f.trail():
            if e[0] != 'loop' or m.E.loops[e[1]].backs is None or not same(f.st, e[2], pl):
                continue
            rec = m.E.loops[e[1]]
            r = self.pool_loop(m, rec, L)
            if r is None:
                return
            if r:
                msg = r
        # no entry uses bootstrap methods?
        m.fail(f, 'bootstrap', msg)

    def pool_loop(self, m, rec, L):
        """None if every iteration establishes the condition; '' if the loop does not look at the attributes; else what is missing"""
        msg = ''
        k = var(rec.k)
        n = self.is_len(m, L)
        for b in rec.backs:
            ks = m.kinds(b.state, k)
            use = [u for u in USERS if u in ks or '?' in ks]
            if not use:
                continue
            good = False
            for e in b.state.trail:
                if e[0] != 'loop' or m.E.loops[e[1]].backs is None or not same(b.state, e[2], n):
                    continue
                r2 = m.E.loops[e[1]]
                cs = self.counter(m, r2, L, e[2])
                if not cs:
                    continue
                if not any(same(b.state, c, const(1)) for c in cs):
                    msg = f'an entry of kind {"/".join(use)} is accepted although the number of BootstrapMethods attributes may differ from one'
                elif len(ks) != 1 or not self.long_enough(m, r2, L, m.pe(k, use[0], 'bsm')):
                    msg = f'an entry of kind {"/".join(use)} is accepted although its index may be outside the bootstrap method table'
                else:
                    good = True
            if not good:
                return msg or (f'an entry of kind {"/".join(use)} is accepted without looking at the BootstrapMethods attributes'
                               if any(e[0] == 'loop' for e in b.state.trail) or len(ks) < 20 and any(k_ in ks for k_ in USERS) else '')
        return None if any(set(m.kinds(b.state, k)) & set(USERS) for b in rec.backs) else ''

    def assume(self, m, st, L):
        data, bv = self.setup(m)
        users = []
        for t in m.pool_terms(st):
            ks = m.kinds(st, t.a[1])
            if ks and ks <= frozenset(USERS):
                users.append((t, ks))
        if not users:
            return True
        for t, ks in users:
            for u in ks:
                if len(ks) > 1:
                    continue
                x = m.pe(t.a[1], u, 'bsm')
                for e in els(st, L):
                    d = mkT('pj', e, 0, data)
                    if st.var.get(d) == frozenset((bv,)) and not st.st.strict('ge', m.E.lenof(mkT('pj', d, bv, 0)) - 1 - x):
                        return False
        n = self.is_len(m, L)
        for e in st.trail:
            if e[0] == 'loop' and m.E.loops[e[1]].backs is not None and same(st, e[2], n):
                for c in self.counter(m, m.E.loops[e[1]], L, e[2]):
                    if not st.st.strict('eq', c - 1):
                        return False
        return True
