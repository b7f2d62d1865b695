"""Call-graph queries over the MIR dump."""


def ext_calls(fn):
    """(callee path, span) of every call in the body whose callee is a named function"""
    for bb in fn.body.blocks:
        t = bb[1]
        if t[0] == 'call':
            if t[1][0] == 'k' and t[1][2][0] == 'fn':
                c = t[1][2][1]
                yield c, bb[2]
            else:
                yield None, bb[2]


def reachable(P, starts):
    seen = set()
    todo = list(starts)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += [c for c in P.callees(P.fns[i]) if c not in seen]
    return seen


def parse_roots(P):
    """bodies of the hand-written public functions (derived impls excluded)"""
    out = []
    for r in P.roots:
        f = P.files[r['span'][0]] if r.get('span') else ''
        if r.get('derived') or f.startswith('/') or r.get('inst') is None:
            continue
        out.append(r['inst'])
    return out
