"""Termination: ranking functions of loops, bounded recursion, bounded recursive drop."""
from lin import const, var
from values import subst, T, mkT
from interp import AnalysisError


def back_map(E, rec, B):
    """head atoms -> values after the back edge (None: not representable)"""
    m = {rec.k: var(rec.k) + 1}
    for leaf, g in rec.gvals.items():
        if rec.gen[leaf][0] == 'gen':
            nv = B.next[leaf]
            if hasattr(g, 't') and len(g.t) == 1:
                m[g.t[0][0]] = nv if hasattr(nv, 't') else None
    return m


def ranking(E, rec):
    """lexicographic linear ranking: list of Lins, or (None, undecided back edges)"""
    cands = []
    for c in list(rec.cands) + [c for c in (rec.log or ())]:
        if hasattr(c, 't') and c not in cands:
            cands.append(c)
    vs = [g for leaf, g in rec.gvals.items() if hasattr(g, 't')]
    for x in vs:
        for y in vs:
            if x is not y and x - y not in cands:
                cands.append(x - y)
    cands += [v for v in vs if v not in cands]
    maps = [back_map(E, rec, b) for b in rec.backs]
    left = list(range(len(rec.backs)))
    used = []
    delta = {}

    def facts(c, i):
        key = (c, i)
        r = delta.get(key)
        if r is None:
            st = rec.backs[i].state.st
            m = maps[i]
            if any(v is None for a, v in m.items() if any(x is a for x, _ in c.t)):
                r = (False, False)
            else:
                n = subst(c, {a: v for a, v in m.items() if v is not None})
                dec = st.ge0(c - n - 1)
                non = dec or st.ge0(c - n)
                if non and not dec:
                    dec = st.decide('eq', c - n) is False
                pos = st.ge0(c)
                r = (non, dec and pos)
            delta[key] = r
        return r
    while left:
        for c in cands:
            if all(facts(c, i)[0] or facts(c, i)[1] for i in left):
                hit = [i for i in left if facts(c, i)[1]]
                if hit:
                    used.append(c)
                    left = [i for i in left if i not in hit]
                    break
        else:
            return None, left
    return used, []


def where(P, fn, span=None):
    return P.file(span or fn.span) + ' in ' + fn.path


# ------------------------------------------------------------------ recursion
def edges(E):
    """recursive call edges: (caller root fn id | None, callee fn id, caller contract, call record)"""
    inside = {}
    for fid, g in E.recres.items():
        for c in g.callids:
            inside[c] = fid
    for fid, cs in E.reccalls.items():
        for c in cs:
            yield inside.get(id(c)), fid, E.recres.get(inside.get(id(c))), c


def recursion(E):
    """for every group of mutually recursive functions a depth argument: [(group, ok, explanation)]"""
    es = list(edges(E))
    groups = {}
    for fid in E.reccalls:
        groups.setdefault(E.sccs.get(fid, frozenset([fid])), set()).add(fid)
    out = []
    for grp, fids in groups.items():
        inner = [e for e in es if e[0] in fids and e[1] in fids]
        outer = [e for e in es if e[1] in fids and e[0] not in fids]
        best = None
        for sign in (1, -1):
            best = _measure(E, fids, inner, outer, sign)
            if best:
                break
        out.append((grp, fids, best, inner, outer))
    return out


def _measure(E, fids, inner, outer, sign):
    fids = sorted(fids)
    opts = []
    for f in fids:
        b = E.p.fns[f].body
        opts.append([i for i in range(b.argc) if E.isint(b.locals[i + 1])])
    import itertools
    for combo in itertools.product(*opts):
        d = dict(zip(fids, combo))
        ok = True
        strict = []
        bound = None
        for caller, callee, g, c in inner:
            p = g.args[d[caller]]
            a = c[3][d[callee]]
            st = c[2].st
            if not hasattr(a, 't') or not hasattr(p, 't'):
                ok = False
                break
            w = (a - p) if sign > 0 else (p - a)
            if not st.ge0(w):
                ok = False
                break
            s = st.ge0(w - 1)
            if s:
                iv = st.interval(a)
                lim = iv[1] if sign > 0 else None
                if sign > 0:
                    if lim is None or lim > 4096:
                        s = False
                    else:
                        bound = max(bound or 0, lim)
                else:
                    if not st.ge0(a):
                        s = False
            strict.append((caller, callee, s))
        if not ok:
            continue
        if sign < 0:
            for _, callee, _, c in outer:
                a = c[3][d[callee]]
                iv = c[2].st.interval(a) if hasattr(a, 't') else (None, None)
                if iv[1] is None or iv[1] > 4096:
                    ok = False
                    break
                bound = max(bound or 0, iv[1])
            if not ok:
                continue
        # no cycle of non-strict edges
        adj = {}
        for a, b, s in strict:
            if not s:
                adj.setdefault(a, set()).add(b)
        if not cyclic(adj):
            return d, bound, len(strict)
    return None


def cyclic(adj):
    """a cycle of the graph as a list, or None"""
    col = {}
    path = []

    def go(v):
        col[v] = 1
        path.append(v)
        for w in adj.get(v, ()):
            if col.get(w) == 1:
                return path[path.index(w):]
            if w not in col:
                r = go(w)
                if r:
                    return r
        path.pop()
        col[v] = 2
        return None
    for v in list(adj):
        if v not in col:
            r = go(v)
            if r:
                return r
    return None


# ------------------------------------------------------------------ nesting built by iteration
def cell_links(E):
    """(holder variant, target variant) links created through shared cells inside loops; None if not understood"""
    links = {}
    odd = []
    n = 0
    for rec in E.loopfinal:
        for b in rec.backs:
            st = b.state
            for r in st.wr:
                if r[0] != 'C' or r in rec.head.wr:
                    continue
                v = st.mem.get(r)
                if v is None:
                    continue
                if isinstance(v, T) and v.tag == 'sym' and v.a[0].tag == 'cw':
                    continue
                n += 1
                tg = list(targets(v))
                if not tg:
                    continue
                h = r[1]
                if not (h.tag == 'pj' and h.a[0].tag == 'dr'):
                    odd.append((rec, r, v))
                    continue
                hv = st.var.get(h.a[0]) or [h.a[1]]
                for t in tg:
                    tv = st.var.get(mkT('dr', t))
                    if tv is None:
                        odd.append((rec, r, v))
                        continue
                    for x in hv:
                        for y in tv:
                            links.setdefault(x, set()).add(y)
    return links, odd, n


def targets(v):
    if isinstance(v, T):
        if v.tag == 'sym' and v.a[0].tag == 'el':
            yield v.a[0]
        elif v.tag == 'adt':
            for x in v.a[2]:
                yield from targets(x)


def nested_in_itself(E, rec):
    """loop-carried values that contain their previous value (a structure whose depth grows with the iterations)"""
    out = []
    for b in rec.backs:
        for leaf, g in rec.gvals.items():
            if rec.gen[leaf][0] == 'list' or hasattr(g, 't'):
                continue
            n = b.next.get(leaf)
            if isinstance(n, T) and n is not g and isinstance(g, T) and g.tag in ('sym', 'adt', 'lvs'):
                from values import subterms
                acc = set()
                subterms(n, acc)
                if g in acc and n.tag == 'adt':
                    out.append((leaf, n))
    return out
