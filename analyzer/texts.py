"""The language of the texts on which a function of one text has a given outcome, extracted from the analysed program.

Every outcome of the function (a path through it, with its loops summarised) constrains the text: bytes at positions, stretches without
certain bytes, comparisons with literals, and what the iterations of its loops run over.  The positions form a graph whose edges carry
regular expressions; each path through it from the start to the end of the text gives a regular language that contains all texts with
that outcome.  (What is not expressible only makes the language larger.)"""
import lin
from lin import Lin, const, var
from values import T, mkT, subst
from interp import AnalysisError, Split, Infeasible, new_state, neg as negp
import automata
from automata import mask, neg, ANY, EPS, Nfa, TooBig
import strings

NONE = ('alt',)
MAXREP = 600
MAXSIZE = 30000


def size(e):
    k = e[0]
    if k == 's':
        return 1
    if k in ('cat', 'alt', 'and'):
        return 1 + sum(size(x) for x in e[1:])
    if k == 'rep':
        return 2 + size(e[1]) * max(1, e[2], e[3] or 0)
    if k == 'notlit':
        return 2 + len(e[1])
    if k == 'dfa':
        return len(e[1].tr)
    return e[1] + sum(size(x) for _, x, _ in e[4])


def isany(e):
    return e is ANY or e == ANY


class View:
    """the numeric facts of a state with everything expressed in terms of as few variables as its equations allow"""

    def __init__(self, st):
        self.map = []
        self.empty = False      # the facts contradict each other
        z = st.copy()
        while True:
            best = None
            for key, ivs in z.con.items():
                if len(key) > 1 and len(ivs) == 1 and ivs[0][0] == ivs[0][1]:
                    for a, q in key:
                        if q in (1, -1) and a.key[0] in ('lv', 'pv', 'lk', 'scan', 'sy'):
                            r = (a.key[0] == 'pv', a.key[0] == 'lv', max(a.loops, default=0), str(a))
                            if not any(x.key[0] in ('nb', 'b') for x, _ in key) and (best is None or r > best[0]):
                                best = (r, a, q, key, ivs[0][0])
            if best is None or len(self.map) > 20:
                break
            _, a, q, key, c = best
            # q*a + rest = c
            rest = lin.mk(tuple((x, k) for x, k in key if x is not a), 0)
            new = (const(c) - rest).scale(q)
            self.map.append((a, new))
            con = {}
            bad = []
            for k, ivs in z.con.items():
                if not any(x is a for x, _ in k):
                    con[k] = ivs
                else:
                    bad.append((k, ivs))
            z.con = con
            z.idx = None
            for k, ivs in bad:
                l = lin.mk(k, 0)
                co = next(q2 for x, q2 in k if x is a)
                l = l - var(a).scale(co) + new.scale(co)
                if not l.t:
                    if not any(lo <= l.c <= hi for lo, hi in ivs):
                        self.empty = True
                    continue
                k2, g, c2 = lin.norm(l)
                out = []
                for lo, hi in ivs:
                    x = lin.ceil_div(lo - c2, g) if g > 0 else lin.ceil_div(hi - c2, g)
                    y = lin.floor_div(hi - c2, g) if g > 0 else lin.floor_div(lo - c2, g)
                    if x <= y:
                        out.append((x, y))
                out = tuple(sorted(out))
                old = z.con.get(k2)
                if old is None:
                    old = k2[0][0].dom if len(k2) == 1 else (z.interval(lin.mk(k2, 0)),)
                new_iv = lin.iv_meet(tuple(old), out)
                if new_iv:
                    z.con[k2] = new_iv
                else:
                    self.empty = True
            z.idx = None
        self.z = z

    def n(self, l):
        for a, new in self.map:
            co = next((q for x, q in l.t if x is a), 0)
            if co:
                l = l - var(a).scale(co) + new.scale(co)
        return l

    def interval(self, l):
        return self.z.interval(self.n(l))

    def ge0(self, l):
        return self.z.ge0(self.n(l))

    def eq0(self, l):
        return self.z.eq0(self.n(l))


class Extract:
    def __init__(self, E, base):
        self.E = E
        self.B = base
        self.memo = {}
        self.toobig = 0

    # ------------------------------------------------------------ positions
    def isb(self, key):
        return key[0] == 'b' and key[1].tag == 'buf' and key[1].a[0].tag == 'strbytes' and key[1].a[0].a[0] is self.B

    def stretch(self, st, start, end, skip=0):
        """regular expression for the text from start to end.  None: the end may lie before the start"""
        w = View(st.st)
        if w.empty:
            return NONE
        nodes = []

        def node(p):
            for i, q in enumerate(nodes):
                if p is q or w.eq0(p - q):
                    return i
            nodes.append(p)
            return len(nodes) - 1
        edges = {}

        def edge(p, q, e):
            a, b = node(p), node(q)
            if a != b:
                edges.setdefault((a, b), []).append(e)
        s, t = node(start), node(end)
        atoms = {}
        for key, ivs in list(st.st.con.items()):
            for a, _ in key:
                if a.key[0] == 'cw' and a.key[1] is self.B:
                    atoms[a.key] = a
                elif a.key[0] == 'nb' and a.key[1] is self.B:
                    for b, _ in a.key[2].t:
                        if b.key[0] == 'cw' and b.key[1] is self.B:
                            atoms[b.key] = b
                elif self.isb(a.key):
                    for b, _ in a.key[2].t:
                        if b.key[0] == 'cw' and b.key[1] is self.B:
                            atoms[b.key] = b
                    atoms[a.key] = a
        done = set()
        for key, a in atoms.items():
            p = key[2]
            if p in done and key[0] == 'b':
                continue
            if key[0] == 'cw':
                edge(p, p + var(a), ('rep', ('s', automata.HIGHBIT), 2, 4))
            else:
                m = 0
                d = st.st.con.get(((a, 1),))
                for lo, hi in (d or ((0, 255),)):
                    for x in range(max(lo, 0), min(hi, 127) + 1):
                        m |= 1 << x
                    if hi >= 128:
                        m |= automata.HIGHBIT
                if m != automata.ALLSYM:
                    edge(p, p + 1, ('s', m))
        for f, v in st.pred.items():
            if f.tag == 'scan' and f.a[0] is self.B:
                _, p, q, cs = f.a
                c = mask(cs)
                if v is True:
                    edge(p, q, ('rep', ('s', neg(c)), 0, None))
                else:
                    edge(p, q, ('cat', ANY, ('s', c), ANY))
            elif f.tag == 'streq' and isinstance(f.a[1], str):
                x = f.a[0]
                if x is self.B:
                    p, q = const(0), self.E.blen(self.B)
                elif x.tag == 'sub' and x.a[0] is self.B:
                    p, q = x.a[1], x.a[2]
                else:
                    continue
                e = automata.lit(f.a[1]) if v is True else ('notlit', f.a[1])
                a, b = node(p), node(q)
                if a != b:
                    edges.setdefault((a, b), []).append(e)
                elif v is True and f.a[1] != '':
                    return NONE
        n = w.interval(end - start)
        if n[0] is not None and 0 <= n[0] and n[1] is not None and n[1] <= MAXREP:
            edges.setdefault((s, t), []).append(('rep', ('s', automata.ALLSYM), n[0], n[1]))
        elif n[0] is not None and 0 < n[0] <= MAXREP:
            edges.setdefault((s, t), []).append(('rep', ('s', automata.ALLSYM), n[0], None))
        for ev in st.trail[skip:]:
            if ev[0] == 'loop':
                for p, q, e in self.loop_edges(st, ev[1], ev[2]):
                    if p is None:
                        continue
                    edge(p, q, e)
        # the position at which a loop with a final mark leaves off
        if s == t:
            return EPS
        for (a, b), es in edges.items():
            lo, hi = w.interval(nodes[b] - nodes[a])
            lo = min(lo, MAXREP) if lo is not None and lo > 0 else 0
            if hi is None or hi > MAXREP:
                hi = None
            if lo or hi is not None:
                for i, e in enumerate(es):
                    if e[0] != 's' and not (e[0] == 'rep' and e[1][0] == 's' and e[2] >= lo and e[3] is not None) and not (e[0] == 'cat' and all(x[0] == 's' for x in e[1:])):
                        es[i] = self.meet([e, ('rep', ('s', automata.ALLSYM), lo, hi)])
        outs, ins = {}, {}
        for (a, b), es in edges.items():
            outs.setdefault(a, []).append(b)
            ins.setdefault(b, []).append(a)
        before = lambda a, b: w.ge0(nodes[b] - nodes[a])
        # keep what lies between start and end; where nothing is known, anything may be
        gaps = {}
        every = set(outs) | set(ins) | {s, t}

        def nearest(a, after):
            ys = [x for x in every if x != a and (before(a, x) if after else before(x, a))]
            return [x for x in ys if not any(y != x and (before(y, x) if after else before(x, y)) and not (before(x, y) and before(y, x)) for y in ys)]
        for a in every:
            if not outs.get(a) and a != t:
                for b in nearest(a, True):
                    gaps[(a, b)] = True
            if not ins.get(a) and a != s:
                for b in nearest(a, False):
                    gaps[(b, a)] = True
        for (a, b) in gaps:
            lo, hi = w.interval(nodes[b] - nodes[a])
            if lo is not None and lo > 0:
                edges.setdefault((a, b), []).append(('rep', ('s', automata.ALLSYM), min(lo, MAXREP), hi if hi is not None and hi <= MAXREP else None))
            else:
                edges.setdefault((a, b), []).append(ANY)
            outs.setdefault(a, []).append(b)
        paths = []

        def walk(a, seen, acc):
            if len(paths) > 64:
                return
            if a == t:
                paths.append(list(acc))
                return
            for b in set(outs.get(a, ())):
                if b in seen:
                    continue
                for e in edges[(a, b)]:
                    if isany(e) and not before(a, b):
                        continue
                    acc.append((a, b, e))
                    walk(b, seen | {b}, acc)
                    acc.pop()
        if s == t:
            return EPS
        walk(s, {s}, [])
        paths = [p for p in paths if not all(isany(e) for _, _, e in p)]
        if not paths:
            return ANY if before(s, t) else None
        return self.join(paths)

    def pathexpr(self, p):
        return p[0][2] if len(p) == 1 else ('cat',) + tuple(e for _, _, e in p)

    def join(self, paths):
        """the text runs along each of the paths"""
        if len(paths) == 1:
            return self.pathexpr(paths[0])
        common = set(b for _, b, _ in paths[0][:-1])
        for p in paths[1:]:
            common &= set(b for _, b, _ in p[:-1])
        if common:
            # (the paths agree on the order of the positions they share, or the text between them is empty)
            order = [b for _, b, _ in paths[0][:-1] if b in common]
            if all([b for _, b, _ in p[:-1] if b in common] == order for p in paths):
                out = []
                rest = paths
                for c in order + [None]:
                    seg, tail = [], []
                    for p in rest:
                        n = next((i for i, x in enumerate(p) if x[1] == c), len(p) - 1)
                        if p[:n + 1] not in seg:
                            seg.append(p[:n + 1])
                        if p[n + 1:] not in tail:
                            tail.append(p[n + 1:])
                    seg = [x for x in seg if not all(isany(e) for _, _, e in x)] or seg[:1]
                    out.append(self.join(seg))
                    rest = tail
                return ('cat',) + tuple(out)
        vg = lambda p: (sum(self.vague(e) for _, _, e in p), sum(size(e) for _, _, e in p))
        paths = sorted(paths, key=vg)[:12]
        # set aside the path that has the least in common with the others
        share = lambda p: sum(1 for q in paths if q is not p for _, b, _ in q[:-1] if b in {b2 for _, b2, _ in p[:-1]})
        paths = sorted(paths, key=lambda p: (-share(p), vg(p)))
        worst = self.pathexpr(paths[-1])
        rest = self.join(paths[:-1])
        return self.meet([rest, worst])

    # ------------------------------------------------------------ loops
    def flag(self, st, g):
        """the value of a mark, if it is known in this state"""
        if isinstance(g, bool):
            return g
        if isinstance(g, Lin):
            if g.isconst():
                return g.c
            lo, hi = st.st.interval(g)
            return lo if lo is not None and lo == hi else None
        if isinstance(g, T):
            if g.tag in ('ptm', 'npt', 'cmp'):
                r = self.E.decide(st, g)
                return r
            if g.tag == 'adt' and not g.a[2]:
                return ('v', g.a[1])
            if g.tag == 'adt':
                return ('v', g.a[1])
            if g.tag == 'sym':
                try:
                    vs = st.var.get(g.a[0])
                except Exception:
                    vs = None
                if vs is not None and len(vs) == 1:
                    return ('v', next(iter(vs)))
        return None

    def flags(self, rec):
        """leaves that only ever hold a few known values"""
        out = []
        for leaf, g in rec.gvals.items():
            if rec.gen[leaf][0] != 'gen':
                continue
            try:
                e0 = self.E.get_path_v(rec.entry, leaf)
            except (KeyError, AnalysisError, Split, Infeasible):
                continue
            f0 = self.flag(rec.entry, e0)
            if f0 is None:
                continue
            vals = {f0}
            nx = []
            ok = True
            for b in rec.backs:
                v = b.next.get(leaf, g)
                f = self.flag(b.state, v)
                if f is None:
                    if v is g:
                        f = 'same'
                    else:
                        ok = False
                        break
                else:
                    vals.add(f)
                nx.append(f)
            if ok and 1 < len(vals) <= 8:
                out.append((leaf, f0, vals, nx))
        return out

    def loop_edges(self, st, lid, kf):
        """[(from, to, expression)]: what the loop has run over when it has made kf iterations (state st)"""
        rec = self.E.loops.get(lid) if isinstance(self.E.loops, dict) else None
        if rec is None or rec.backs is None:
            return
        fl = self.flags(rec)
        # automaton of the marks
        states = {}
        start = tuple(f0 for _, f0, _, _ in fl)
        states[start] = 0
        work = [start]
        edges = []
        if len(rec.backs) > 40:
            return
        while work:
            cur = work.pop()
            for bi, b in enumerate(rec.backs):
                ok = True
                nxt = []
                for (leaf, f0, vals, nx), c in zip(fl, cur):
                    f = self.flag(b.state, rec.gvals[leaf])
                    if f is not None and f != c:
                        ok = False
                        break
                    nxt.append(c if nx[bi] == 'same' else nx[bi])
                if not ok:
                    continue
                nxt = tuple(nxt)
                if nxt not in states:
                    states[nxt] = len(states)
                    work.append(nxt)
                edges.append((states[cur], bi, states[nxt]))
            if len(states) > 64:
                return
        finals = []
        for f, i in states.items():
            if all(self.flag(st, rec.gvals[leaf]) in (None, c) for (leaf, _, _, _), c in zip(fl, f)):
                finals.append(i)
        lo, hi = st.st.interval(kf)
        for leaf, g in rec.gvals.items():
            if not isinstance(g, Lin):
                continue
            try:
                e0 = self.E.get_path_v(rec.entry, leaf)
            except (KeyError, AnalysisError, Split, Infeasible):
                continue
            if not isinstance(e0, Lin):
                continue
            ka = rec.k.t[0][0] if isinstance(rec.k, Lin) else rec.k
            for d in self.shifts(rec, g, ka):
                body = self.bodies(rec, leaf, d)
                if body is not None:
                    break
            else:
                continue
            e0 = e0 + d
            gf = subst(g, {ka: kf}) + d
            if len(states) == 1:
                e = ('alt',) + tuple(body[bi] for _, bi, _ in edges)
                try:
                    e = automata.simplify(e)
                except TooBig:
                    pass
                if lo is None or lo < 0 or lo > MAXREP:
                    lo = 0
                h = hi if hi is not None and hi <= MAXREP else None
                if size(e) * max(lo, h or 0, 1) > MAXSIZE:
                    lo, h = min(lo, 1), None
                yield e0, gf, ('rep', e, lo, h)
            else:
                x = ('auto', len(states), (0,), tuple(finals), tuple((i, body[bi], j) for i, bi, j in edges))
                yield e0, gf, x
                # marks that are only set where the loop reaches a known position
                last = [bi for i, bi, j in edges if j in finals]
                if 0 not in finals and last:
                    for q in (self.E.blen(self.B),):
                        if all(rec.backs[bi].state.st.eq0(self.nextof(rec.backs[bi], leaf, g) + d - q) for bi in last):
                            yield e0, q, x

    def shifts(self, rec, g, ka):
        """0, and the fixed distances at which the loop reads bytes from the leaf's value (text[start + k])"""
        yield const(0)
        if not rec.backs:
            return
        own = {a for g2 in rec.gvals.values() if isinstance(g2, Lin) for a, _ in g2.t} | {ka}
        known = {a for key in rec.entry.st.con for a, _ in key}
        done = []
        for b in rec.backs[:1]:
            for key in list(b.state.st.con):
                for a, _ in key:
                    if self.isb(a.key):
                        d = a.key[2] - g
                        if d.isconst() and d.c == 0 or len(done) >= 4 or d in done:
                            continue
                        if all(x not in own and x in known for x, _ in d.t):
                            done.append(d)
        yield from done

    def nextof(self, b, leaf, g):
        v = b.next.get(leaf, g)
        return v if isinstance(v, Lin) else g

    def bodies(self, rec, leaf, d):
        """expressions of what each back edge of the loop adds to the stretch [entry value, value of the leaf), moved by d"""
        key = (rec.id, leaf, d)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        g = rec.gvals[leaf]
        ka = rec.k.t[0][0] if isinstance(rec.k, Lin) else rec.k
        out = []
        some = False
        for b in rec.backs:
            if rec.gen[leaf][0] == 'gen':
                nx = b.next.get(leaf)
                if nx is None:
                    nx = g
            else:
                nx = subst(g, {ka: var(ka) + 1})
            if not isinstance(nx, Lin):
                return None
            at = max([i for i, t in enumerate(b.state.trail) if t[0] == 'in' and t[1] == rec.id], default=-1)
            cs = self.stretch(b.state, g + d, nx + d, at + 1)
            if cs is None:
                return None
            x = self.meet([cs])
            if x[0] != 'dfa' or any(m != automata.ALLSYM for row in x[1].tr for m, _ in row):
                some = some or not isany(x)
            out.append(x)
        if not some:
            out = None
        self.memo[key] = out
        return out

    def meet(self, cs):
        """one expression for a stretch that is in the language of each of them"""
        cs = sorted((c for c in cs if not isany(c)), key=lambda e: (self.vague(e), size(e)))[:6]
        if not cs:
            return ANY
        e = cs[0] if len(cs) == 1 else ('and',) + tuple(cs)
        try:
            return automata.simplify(e)
        except TooBig:
            self.toobig += 1
            return cs[0]

    def vague(self, e):
        if isany(e):
            return 1
        if e[0] in ('cat', 'alt', 'and'):
            return sum(self.vague(x) for x in e[1:])
        if e[0] == 'rep':
            return self.vague(e[1])
        if e[0] == 'notlit':
            return 1
        if e[0] == 'dfa':
            return sum(1 for row in e[1].tr if len(row) == 1 and row[0][0] == automata.ALLSYM)
        if e[0] == 's':
            return int(e[1] == automata.ALLSYM)
        if e[0] == 'auto':
            return sum(self.vague(x) for _, x, _ in e[4])
        return 0


class Outcome:
    """value: the value returned; sigs: {signature: a text with it} of the texts that may have this outcome"""

    def __init__(self, st, value, sigs, exprs):
        self.st, self.value, self.sigs, self.exprs = st, value, sigs, exprs


class TextFn:
    def __init__(self, fid, pat):
        self.fid, self.pat = fid, pat
        self.outs = []
        self.engines = []
        self.problem = None


def build_arg(E, P, S, s, ty, variant):
    t = P.tys[ty]
    if t['k'] == 'ref':
        if P.tys[t['e']]['k'] == 'str':
            return mkT('str', S)
        root = ('A', 'text')
        s.mem[root] = build_arg(E, P, S, s, t['e'], variant)
        return mkT('ref', root, ())
    if t['k'] == 'adt' and t['name'].endswith('Cow'):
        return mkT('adt', ty, variant, (mkT('str', S) if variant == 0 else mkT('strv', S),))
    return mkT('strv', S)


def has_cow(P, ty):
    t = P.tys[ty]
    return t['k'] == 'ref' and has_cow(P, t['e']) or t['k'] == 'adt' and t['name'].endswith('Cow')


def split_value(E, st, v):
    """outcomes with decided truth values"""
    if isinstance(v, T) and v.tag in ('cmp', 'ptm', 'npt'):
        out = []
        for b in (True, False):
            s = st.copy()
            try:
                if E.assume(s, v if b else negp(v)):
                    out.append((s, b))
            except Infeasible:
                pass
        return out
    return [(st, v)]


def analyse(P, errty, fid, pat, dfa, ptr=64):
    r = TextFn(fid, pat)
    fn = P.fns[fid]
    tys = [fn.body.locals[i + 1] for i in range(len(pat))]
    for variant in ((0, 1) if any(x == 's' and has_cow(P, ty) for x, ty in zip(pat, tys)) else (0,)):
        E = strings.StrEngine(P, ptr=ptr, errty=errty)
        r.engines.append(E)
        S = mkT('S', 'text')
        E.bases.add(S)
        s = new_state()
        args = []
        for x, ty in zip(pat, tys):
            if x == 's':
                args.append(build_arg(E, P, S, s, ty, variant))
            else:
                args.append(const(x) if isinstance(x, int) and not isinstance(x, bool) else x)
        s.st.assume('eq', E.nb(S, const(0)))
        s.st.assume('eq', E.nb(S, E.blen(S)))
        try:
            outs = E.run_fn(fn, args, s)
        except (AnalysisError, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as ex:
            r.problem = f'{type(ex).__name__}: {ex}'
            return r
        if E.badstr:
            r.problem = 'text operation that is not modelled: ' + str(E.badstr[0][2])
        if dfa is None:
            continue
        X = Extract(E, S)
        n = E.blen(S)
        for st, v in outs:
            for s2, v2 in split_value(E, st, v):
                e = X.meet([X.stretch(s2, const(0), n) or ANY])
                try:
                    sg = automata.signatures(dfa, [Nfa(e)], *((2000, 200000) if r.problem else ()))
                except TooBig:
                    r.problem = 'language too large'
                    sg = {}
                r.outs.append(Outcome(s2, v2, sg, e))
                r.outs[-1].engine = E
    return r
