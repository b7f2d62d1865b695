"""Branch targets (C11) and lookup by offset (C12).

A search loop over the instruction list L for the offset t is recognised by its invariant, not by its form: two integers lo, hi
of the loop such that every instruction before lo starts before t and every instruction from hi on starts after t.  The
invariant holds at entry (lo = 0, hi = length) and must be preserved by every iteration, using the comparison with an element
made in it and the order of the list.  It decides both directions of a lookup: an index returned names an element whose offset
was compared equal, and where nothing is returned no element can have the offset.
"""
from lin import Lin, const, var, atom
from values import T, mkT, subst
from interp import Infeasible, AnalysisError, Split
from checks.match import Node, Pat, V, S, ListOf, Tup, Lc, marks, same

I32 = (-(1 << 31), (1 << 31) - 1)
_atoms = {}


def atom_els(a):
    r = _atoms.get(a)
    if r is None:
        r = _atoms[a] = tuple(t for t in marks(var(a)) if t.tag == 'el')
    return r


def oflist(x, L):
    """x is L, or a view of the whole of it"""
    return x is L or isinstance(x, T) and x.tag == 'list' and len(x.a[0]) == 1 and x.a[0][0].tag == 'symseg' and x.a[0][0].a[0] is L


def length(m, L):
    return m.E.list_len(L) if L.tag == 'list' else m.E.lenof(L)


def els(st, L):
    """the elements of L the facts of the state speak about"""
    out = set()
    for key in st.st.con:
        for a, _ in key:
            for t in atom_els(a):
                if oflist(t.a[0], L):
                    out.add(t)
    for d in (st.var, st.pred):
        for y in d:
            for t in marks(y):
                if t.tag == 'el' and oflist(t.a[0], L):
                    out.add(t)
    return sorted(out, key=lambda t: t.n)


def off(L, x):
    """offset of instruction x of L"""
    return var(atom(('sy', mkT('pj', mkT('el', L, x), 0, 0)), 0, (1 << 64) - 1))


def is_start(m, st, L, t):
    """t is known to be the offset of some instruction of L (facts about an element stem from reading it, which checks the index)"""
    return any(same(st, off(x.a[0], x.a[1]), t) for x in els(st, L))


# ------------------------------------------------------------------------------------------------ searches
def search_bounds(m, rec, L, t):
    """[(lo leaf, hi leaf, shift)] with: off(i) < t for i < lo, off(i) > t for i >= hi + shift, at every iteration's start"""
    key = (rec.id, L, t)
    memo = m.__dict__.setdefault('searchmemo', {})
    if key in memo:
        return memo[key]
    out = []
    memo[key] = out
    n = length(m, L)
    ints = []
    for lf in rec.gen:
        g = rec.gvals.get(lf)
        if isinstance(g, Lin):
            try:
                ev = m.E.get_path_v(rec.entry, lf)
            except (KeyError, AnalysisError, Split, Infeasible):
                continue
            if isinstance(ev, Lin):
                ints.append((lf, g, ev))
    if not rec.backs:
        return out
    los = [(lf, g) for lf, g, ev in ints if rec.entry.st.ge0(-ev)]
    his = [(lf, g, s) for lf, g, ev in ints for s in (0, 1) if rec.entry.st.ge0(ev + s - n)]
    none = (None, const(0))
    for llf, lo in los + [none]:
        for hlf, hi, s in his + [(None, n, 0)]:
            if llf is None and hlf is None:
                continue
            if all(preserved(m, b, L, t, lo, b.next[llf] if llf else lo, hi + s, b.next[hlf] + s if hlf else hi + s) for b in rec.backs):
                out.append((llf, hlf, s))
    return out


def preserved(m, b, L, t, lo, lo2, hi, hi2):
    st = b.state
    if not (isinstance(lo2, Lin) and isinstance(hi2, Lin)):
        return False
    xs = els(st, L)
    lok = st.st.ge0(lo - lo2) or any(st.st.ge0(x.a[1] + 1 - lo2) and st.st.ge0(t - off(x.a[0], x.a[1]) - 1) for x in xs)
    hok = st.st.ge0(hi2 - hi) or any(st.st.ge0(hi2 - x.a[1]) and st.st.ge0(off(x.a[0], x.a[1]) - t - 1) for x in xs)
    return lok and hok


def no_element(m, st, L, t):
    """the facts exclude that an instruction of L starts at t"""
    n = length(m, L)
    for p, b in st.pred.items():
        if p.tag == 'bsnone' and whole(m, st, L, p) and any(oflist(x.a[0], L) and x.a[1] is p.a[0] and same(st, off(x.a[0], p.a[0]) - t, p.a[1]) for x in lin_els(p.a[1])):
            return True
        if p.tag == 'nosuch' and p.a[0] is L and b is True and same(st, p.a[1], t):
            return True
    s = st.copy()
    i = var(atom(('someinsn', L), 0, (1 << 62)))
    if not s.st.strict('ge', n - 1 - i):
        return True
    for p in st.pred:
        if p.tag == 'ppart' and whole(m, st, L, p):
            if not partition(s, L, t, i, *p.a[:3]):
                return True
    if not order(m, s, L, t, i):
        return True
    for e in st.trail:
        if e[0] not in ('loop', 'in') or m.E.loops[e[1]].backs is None:
            continue
        rec = m.E.loops[e[1]]
        kx = e[2] if e[0] == 'loop' else var(rec.k)
        for llf, hlf, sh in search_bounds(m, rec, L, t):
            if llf is not None and not s.st.strict('ge', i - subst(rec.gvals[llf], {rec.k: kx})):
                return True
            if hlf is not None and not s.st.strict('ge', subst(rec.gvals[hlf], {rec.k: kx}) + sh - 1 - i):
                return True
    return infeasible(s)


def whole(m, st, L, p):
    """the searched slice is the whole of L"""
    return st.st.eq0(p.a[-2]) and st.st.eq0(p.a[-1] - length(m, L))


def lin_els(l):
    return {x for a, _ in l.t for x in atom_els(a)}


def partition(s, L, t, i, p, j, c):
    """p is the partition point of L by the condition c >= 0 on its element j; some element, at i, has the offset t"""
    for x in lin_els(c):
        if oflist(x.a[0], L) and x.a[1] is j:
            d = t - off(x.a[0], j)
            for y in els(s, L):
                o = off(y.a[0], y.a[1])
                if same(s, c, d - 1) and s.st.ge0(y.a[1] - p):
                    s.st.assume('ge', o - t)
                elif same(s, c, d) and s.st.ge0(p - 1 - y.a[1]):
                    s.st.assume('ge', t - o)
            if same(s, c, d - 1) and not s.st.strict('ge', i - p) or same(s, c, d) and not s.st.strict('ge', p - 1 - i):
                return False
    return True


def order(m, s, L, t, i):
    """facts about i from the elements compared with t (the list is in strictly increasing order)"""
    for x in els(s, L):
        o, j = off(x.a[0], x.a[1]), x.a[1]
        ok = True
        if s.st.ge0(t - o - 1):
            ok = s.st.assume('ge', i - j - 1)
        elif s.st.ge0(o - t - 1):
            ok = s.st.assume('ge', j - i - 1)
        elif s.st.decide('ne', o - t) is True:
            ok = s.st.assume('ne', i - j)
        if ok is False:
            return False
    return True


def infeasible(s):
    """contradiction among the facts about one index: some fact is refuted by the others"""
    for key, dom in list(s.st.con.items()):
        if not any(a.key[0] == 'someinsn' for a, _ in key):
            continue
        from lin import mk, INF
        l = mk(key, 0)
        lo, hi = dom[0][0], dom[-1][1]
        if lo > hi:
            return True
        if lo != -INF and s.st.decide('ge', l - lo) is False:
            return True
        if hi != INF and s.st.decide('ge', -l + hi) is False:
            return True
        t = s.copy()
        del t.st.con[key]
        t.st.idx = None
        if lo != -INF and t.st.decide('ge', l - lo) is False:
            return True
        if hi != INF and t.st.decide('ge', -l + hi) is False:
            return True
    return False


# ------------------------------------------------------------------------------------------------ the format node
def jump_sites(m, cases, ty):
    """{variant index of the instruction type: [path of the offset, or (path of a list, path in its element)]}"""
    from checks.jvms import Jump
    vs = [x[0] for x in m.P.tys[ty]['vs']]
    out = {}

    def walk(p, path, env):
        """yields jump paths inside pattern p standing at path"""
        if isinstance(p, Jump):
            yield (path, None)
        elif isinstance(p, S):
            sty = [i for i, t in enumerate(m.P.tys) if t['k'] == 'adt' and m.tyname(i) == p.ty]
            for i in sty:
                names = [x[0] for x in m.P.tys[i]['vs'][0][2]]
                for fname, q in p.fields.items():
                    if fname in names:
                        yield from walk(q, path + ((0, names.index(fname)),), env)
                break
        elif isinstance(p, ListOf):
            tab = env.get(p.name)
            if tab is not None:
                for q, _ in walk(tab.value, (), env):
                    yield (path, q)
        elif isinstance(p, Tup):
            for i, q in enumerate(p.ps):
                yield from walk(q, path + ((0, i),), env)

    for _, nodes, val in cases:
        if isinstance(val, V) and val.variant in vs:
            env = {n.name: n for n in nodes if hasattr(n, 'item') and hasattr(n, 'name')}
            vi = vs.index(val.variant)
            for fname, q in val.fields.items():
                names = [x[0] for x in m.P.tys[ty]['vs'][vi][2]]
                if fname in names:
                    for js in walk(q, ((vi, names.index(fname)),), env):
                        if js not in out.setdefault(vi, []):
                            out[vi].append(js)
    return out


def at(t, path):
    for v, i in path:
        t = mkT('pj', t, v, i)
    return t


def i32(t):
    return var(atom(('sy', t), *I32))


class Jumps(Node):
    """every branch target is the start of an instruction of the same code array"""

    def __init__(self, name, cases, codelen):
        self.name, self.cases, self.codelen = name, cases, codelen

    def run(self, m, f):
        tab = f.env.get(self.name)
        if tab is None or tab[0] != 'tab' or tab[2] is None:
            yield f
            return
        L, ty = self.list(m, tab)
        if L is None:
            if m.mode == 'ok':
                m.fail(f, 'jump', 'the instructions read are not kept in a list')
            yield f
            return
        sites = jump_sites(m, self.cases, ty)
        if m.mode == 'ok':
            self.check(m, f, L, sites)
            yield f
        elif self.assume(m, f.st, L, sites, self.codelen(m, f)):
            yield f

    def list(self, m, tab):
        rec, kx = tab[2], tab[5]
        for b in rec.backs:
            for leaf, ps in b.pushes.items():
                if len(ps) == 1 and isinstance(ps[0], T) and ps[0].tag == 'tup' and len(ps[0].a[0]) == 2:
                    v = ps[0].a[0][1]
                    if isinstance(v, T) and v.tag in ('adt', 'sym'):
                        ty = v.a[0] if v.tag == 'adt' else v.a[1]
                        h = m.poolhead(rec, leaf)
                        if h is not None:
                            return subst(h, {rec.k: kx}), ty
        return None, None

    # ---------------------------------------------------------- accepted code
    def check(self, m, f, L, sites):
        n = length(m, L)
        best = None
        for i, e in f.trail():
            if e[0] == 'loop' and same(f.st, e[2], n):
                rec = m.E.loops[e[1]]
                if rec.backs is None:
                    continue
                bad = self.covers(m, rec, L, sites)
                if best is None or len(bad) < len(best):
                    best = bad
        m.count['jump'] = m.count.get('jump', 0) + sum(len(v) for v in sites.values())
        if best is None:
            if f.st.st.eq0(n):
                return
            m.fail(f, 'jump', 'no loop of this path goes through all instructions to check their branch targets')
            return
        names = {}
        for vi, js in best:
            names.setdefault((vi, len(js[0]), js[1] is not None), []).append(js)
        for vi, js in sorted(best, key=str):
            m.fail(f, 'jump', f'instruction variant {vi} ({"table of targets" if js[1] is not None else "target"} at {js[0]}): accepted without the target being '
                              'compared with an instruction start')

    def covers(self, m, rec, L, sites):
        bad = set()
        seen = set()
        el = mkT('el', L, var(rec.k))
        op = mkT('pj', el, 0, 1)
        for b in rec.backs:
            vs = b.state.var.get(op)
            for vi, jss in sites.items():
                if vs is not None and vi not in vs:
                    continue
                seen.add(vi)
                for js in jss:
                    if not self.site_ok(m, b.state, L, el, op, js):
                        bad.add((vi, js))
        return bad

    def site_ok(self, m, st, L, el, op, js):
        path, sub = js
        src = off(L, el.a[1])
        if sub is None:
            return is_start(m, st, L, src + i32(at(op, path)))
        lt = at(op, path)
        ln = m.E.lenof(lt)
        for e in st.trail:
            if e[0] == 'loop' and same(st, e[2], ln):
                r2 = m.E.loops[e[1]]
                if r2.backs and all(any(same(b.state, y.a[1], var(r2.k)) and is_start(m, b.state, L, src + i32(at(y, sub))) for y in els(b.state, lt))
                                    for b in r2.backs):
                    return True
        return st.st.eq0(ln)

    # ---------------------------------------------------------- rejected code
    def assume(self, m, st, L, sites, codelen):
        """assume that all targets are instruction starts; False if the state contradicts it"""
        for x in els(st, L):
            if not (st.st.strict('ge', off(x.a[0], x.a[1])) and st.st.strict('ge', codelen - 1 - off(x.a[0], x.a[1]))):
                return False
        for x in els(st, L):
            op = mkT('pj', x, 0, 1)
            vs = st.var.get(op)
            if vs is None or len(vs) != 1:
                continue
            for path, sub in sites.get(next(iter(vs)), ()):
                ts = []
                if sub is None:
                    ts.append(i32(at(op, path)))
                else:
                    lt = at(op, path)
                    ts += [i32(at(y, sub)) for y in els(st, lt)]
                for t in ts:
                    t = off(x.a[0], x.a[1]) + t
                    if not (st.st.strict('ge', t) and st.st.strict('ge', codelen - 1 - t)):
                        return False
                    if no_element(m, st, L, t):
                        return False
        return True
