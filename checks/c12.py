"""C12: instructions are in offset order and can be found by offset.

Order: the matcher of checks/fmt.py establishes that the decoded list is filled by a loop whose every iteration records the
position of the opcode byte it reads, starting at offset zero, and ends at a later position where the next one starts.
Lookup: every outcome of get_opcode_index, for a symbolic list in that order and a symbolic offset, is decided: an index
returned is the index of an element whose offset has been found equal; where nothing is returned, the invariants of the search
loops (checks/jumps.py) exclude that any element has the offset.
"""
from checks import fmt, jumps, rank
from interp import Infeasible
from lin import Lin
from values import T, mkT


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    r = fmt.report(cx, 'C12')
    A, m = r.A, r.m
    E, P = A.E, A.P
    # order
    n = 0
    for ps, key, title, detail, where in fmt.sound(r):
        if 'instructions[]' in key and key.split(':')[0] in ('pos', 'int', 'count', 'table') or '.opcodes' in title.replace('.opcodes[].1', ''):
            cx.fail('order:' + key, title, detail, where)
    tabs = [k for k, v in m.loopbind.items() if v and E.loops[k[0]].fn is not None and any(getattr(f.env.get('iter', (0, None))[1], 'what', '') == 'instructions'
                                                                                          for _, fr in v for f in fr)]
    cx.check(len(tabs) >= 1, 'order:nolist', 'no loop that fills the instruction list was recognised')
    # lookup
    fns = [f for f in P.fns if f.body and f.npath.endswith('::get_opcode_index')]
    if not cx.check(len(fns) == 1, 'lookup:missing', f'{len(fns)} functions named get_opcode_index'):
        return
    fn = fns[0]
    outs = A.run_symbolic(fn)
    bc = P.tys[P.tys[fn.body.locals[1]]['e']]
    path = list_field(P, bc)
    if not cx.check(path is not None, 'lookup:shape', 'the byte code structure has no single instruction list'):
        return
    L = mkT('dr', mkT('arg', fn.id, 1))
    for i in path:
        L = mkT('pj', L, 0, i)

    t = A.lastargs[1]
    m.mode = 'ok'
    for st, v in outs:
        try:
            d = decide(m, E, st, v, L, t)
        except Infeasible:
            continue
        w = rank.where(P, fn, fn.span)
        cx.check(d is None, f'lookup:{fn.npath}:{d}', 'the lookup by offset ' + str(d), lambda: f'result {str(v)[:200]}', w)
        cx.sample({'outcome': str(v)[:120], 'verdict': 'ok' if d is None else d})
        n += 1
    cx.check(n >= 2, 'floor:outcomes', f'only {n} outcomes of the lookup')
    cx.cov['lookup_outcomes'] = n


def list_field(P, t):
    """path of the vector of (offset, instruction) pairs inside the structure"""
    if not t.get('vs'):
        return None
    hits = []
    for i, q in enumerate(t['vs'][0][2]):
        if 'Vec' in P.tyname(q[1]) if hasattr(P, 'tyname') else True:
            hits.append(i)
    return [hits[0]] if len(hits) == 1 else None


def decide(m, E, st, v, L, t):
    if not (isinstance(v, T) and v.tag == 'adt'):
        return 'has a result that is not decided'
    if v.a[1] == 0:
        return None if jumps.no_element(m, st, L, t) else 'may miss an instruction that starts at the offset'
    x = v.a[2][0]
    if not isinstance(x, Lin):
        return 'returns an index that is not decided'
    lists = [q.a[0] for q in jumps.els(st, L)] or [L]
    for l in dict.fromkeys(lists):
        o = jumps.off(l, x)
        if jumps.same(st, o, t) or any(jumps.same(st, jumps.off(l, y.a[1]), t) and jumps.same(st, y.a[1], x) for y in jumps.els(st, L)):
            return None
    return 'may return an index whose instruction does not start at the offset'
