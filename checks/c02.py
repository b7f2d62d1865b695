"""C02: termination and input-independent recursion depth.

Every loop of every analysed body (all contexts) needs a lexicographic linear ranking function: an expression bounded
below by the loop's inductive invariants or branch conditions that decreases by at least one on each back edge.
Every group of mutually recursive functions needs an integer argument that never decreases along a recursive call,
strictly grows on every cycle and is bounded by a constant where it grows (or the mirror image).
Structures linked through shared cells inside a loop must not be able to form chains or cycles, because dropping
them is recursive: the relation 'variant holds a link to variant' must be acyclic.
"""
from checks import rank


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    P = cx.program()
    A = cx.analysis()
    E = A.E
    A.run_iter()
    sites = set()
    for rec in E.loopfinal:
        if not rec.backs:
            continue
        u, left = rank.ranking(E, rec)
        sites.add((rec.fn.npath, rec.header))
        w = rank.where(P, rec.fn, loop_span(rec))
        ch = ' <- '.join(P.fns[f].path if isinstance(f, int) else str(f) for f, _ in reversed(rec.chain[-4:]))
        if cx.check(u is not None, f'loop:{rec.fn.npath}:{[l for l in left]}', 'loop without a ranking function (termination not guaranteed)',
                    f'context: {ch}; back edges {left} decrease nothing; invariants: {[str(c)[:80] for c in rec.cands][:6]}', w):
            if len(cx.samples) < 25:
                cx.sample({'loop': w, 'ranking': [str(x)[:160] for x in u]})
        cx.check(not rank.nested_in_itself(E, rec), f'nest:{rec.fn.npath}', 'a value nests its previous version once per iteration (unbounded depth)', '', w)
    cx.cov['loops'] = len(sites)
    cx.cov['loop_instances'] = len(E.loopfinal)
    n = 0
    for grp, fids, best, inner, outer in rank.recursion(E):
        n += 1
        names = sorted(P.fns[f].npath for f in fids)
        if cx.check(best is not None, 'recursion:' + ','.join(names), 'recursion whose depth is not bounded by a constant',
                    f'{len(inner)} recursive call edges, no integer argument bounds them', rank.where(P, P.fns[min(fids)])):
            d, bound, k = best
            cx.sample({'recursion': names, 'depth argument': {P.fns[f].npath: i for f, i in d.items()}, 'bound': bound, 'edges': k})
    cx.cov['recursive_groups'] = n
    # recursion among functions that the analysis never reached through a modelled call
    covered = set()
    for fid in E.reccalls:
        covered |= set(E.sccs.get(fid, ()))
    seen = set(E.fnseen)
    for fid, grp in P.sccs().items():
        f = P.fns[fid]
        if f.local and fid in seen and fid not in covered:
            cx.fail('recursion:' + f.npath, 'recursive function outside every analysed recursion group', '', rank.where(P, f))
    links, odd, k = rank.cell_links(E)
    cx.cov['cell_writes'] = k
    for rec, r, v in odd:
        cx.fail('drop:' + rec.fn.npath, 'a shared cell is linked to an entry of unknown kind inside a loop (chains of links are dropped recursively)',
                f'{str(r)[:300]} := {str(v)[:300]}', rank.where(P, rec.fn))
    cyc = rank.cyclic(links)
    cx.check(cyc is None, 'drop:cycle', 'entries linked in a loop can form chains of input-dependent length, which are dropped recursively',
             f'entry variants in the cycle: {cyc}')
    cx.sample({'links between entry variants': {str(a): sorted(b) for a, b in links.items()}})
    from checks import strcheck
    strcheck.termination(cx, A)
    cx.check(len(sites) >= 35, 'floor:loops', f'only {len(sites)} loops analysed (at least 35 expected)')
    cx.check(k >= 1, 'floor:cells', 'no shared cell is written in any loop: constant-pool linking not recognised')


def loop_span(rec):
    return rec.fn.body.blocks[rec.header][2]
