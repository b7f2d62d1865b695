"""C03: capacity reserved from input quantities is bounded.

Every place that reserves capacity (with_capacity, reserve, resize, from_elem, ... on vectors, sets and strings), in
every calling context reached by the analysis, must have an amount that the path facts bound by a constant of at most
65536, or by a small constant times the length of the buffer being read.
"""
from checks import rank, reach
from lin import var
NAMES = ('with_capacity', 'reserve', 'reserve_exact', 'try_reserve', 'try_reserve_exact', 'from_elem', 'resize', 'resize_with', 'repeat',
         'with_capacity_and_hasher', 'repeat_n', 'from_fn', 'take')
FACTOR = 4


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    P = cx.program()
    A = cx.analysis()
    E = A.E
    A.run_iter()
    sites = {}
    for n, st, chain, fn, span in E.allocs:
        w = rank.where(P, fn, span)
        key = (fn.npath, tuple(span or ()))
        why = bounded(E, n, st)
        sites.setdefault(key, set()).add(why or '!')
        ctx = ' <- '.join(P.fns[f].path if isinstance(f, int) else str(f) for f, _ in reversed(chain[-4:]))
        cx.check(why is not None, f'capacity:{fn.npath}', 'capacity reserved from an unbounded quantity', f'amount {str(n)[:300]}; context {ctx}', w)
        if why and why != 'constant':
            cx.sample({'site': w, 'bound': why, 'amount': str(n)[:160]})
    cx.cov['sites'] = len(sites)
    cx.cov['site_contexts'] = len(E.allocs)
    # every capacity call in the crate must have been seen by the analysis
    starts = [A.fn_parse.id]
    known = {(fn.id, tuple(span or ())) for _, _, _, fn, span in E.allocs}
    k = 0
    for i in reach.reachable(P, starts):
        f = P.fns[i]
        if not f.local or not f.body:
            continue
        for c, span in reach.ext_calls(f):
            p = (c.get('rpath') or c['path']) if c else ''
            if p.rsplit('::', 1)[-1] in NAMES and not p.startswith('cafebabe'):
                k += 1
                if p.rsplit('::', 1)[-1] in ('repeat', 'repeat_n', 'from_fn', 'take', 'reserve_exact', 'try_reserve', 'try_reserve_exact', 'resize_with') \
                        or i not in E.fnseen:
                    if (f.id, tuple(span or ())) not in known and i not in E.fnseen:
                        cx.fail('capacity-unseen:' + f.npath, 'capacity reserved in a function outside the analysis', p, rank.where(P, f, span))
    cx.cov['capacity_calls_in_source'] = k
    cx.check(len(sites) >= 15, 'floor:sites', f'only {len(sites)} capacity sites recognised (at least 15 expected)')


def bounded(E, n, st):
    if not hasattr(n, 't'):
        return None
    if n.isconst():
        return 'constant' if n.c <= 65536 else None
    if st is None:
        return None
    hi = st.st.interval(n)[1]
    if hi is not None and hi <= 65536:
        return f'at most {hi}'
    if st.st.ge0(-n + 65536):
        return 'at most 65536'
    lens = set()
    for key in st.st.con:
        for a, _ in key:
            if a.key[0] in ('len', 'slen'):
                lens.add(a)
    for a, _ in n.t:
        if a.key[0] in ('len', 'slen'):
            lens.add(a)
    if not any(a.key[0] == 'div' for a, _ in n.t):
        divs = {a for key in st.st.con for a, _ in key if a.key[0] == 'div'}
        for a in sorted(divs, key=str):
            if st.st.ge0(var(a) - n):
                r = bounded(E, var(a), st)
                if r:
                    return r
    d = 1
    for a, c in n.t:
        if a.key[0] == 'div' and c > 0 and a.key[2] > 0 and st.st.ge0(a.key[1]):
            # div(X, q) <= X / q
            n = (n - var(a).scale(c)).scale(a.key[2]) + a.key[1].scale(c)
            d *= a.key[2]
    for a in sorted(lens, key=str):
        for k in (1, 2, FACTOR):
            if st.st.ge0((var(a).scale(k) + 16).scale(d) - n):
                return f'at most {k} * {a} + 16'
    return None
